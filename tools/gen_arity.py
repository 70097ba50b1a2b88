#!/usr/bin/env python3
"""Contracts for SequenceN / ChoiceN, N = 2..16 (53_sequence.rs, 54_choice.rs; the semantic functions do
not depend on the arity: step/alt)."""
V = __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
PRE_SEQ = '''// generated by tools/gen_arity.py
// ---------------------------------------------------------------- sequences
/// one more element (or trivia) after a partial match
pub open spec fn step<'i, R: RuleType, T: TypedNode<'i, R>>(s: Sem<'i>) -> Sem<'i> {
    match s.0 { Some(p) => T::sem(p, s.1), None => s }
}
pub open spec fn step_trk<'i, R: RuleType, T: TypedNode<'i, R>>(s: Sem<'i>, t: TV<'i, R>) -> TV<'i, R> {
    match s.0 { Some(p) => T::trk(p, s.1, t), None => t }
}
/// the field describes the match that starts where `s` ends
pub open spec fn field_ok<'i, R: RuleType, T: TypedNode<'i, R>>(f: T, s: Sem<'i>) -> bool {
    match s.0 { Some(p) => f.node_ok(p, s.1), None => false }
}
'''
def seq(n):
    o = ['//@item core Sequence%d' % n, '//@open core impl TypedNode for Sequence%d' % n]
    def chain(): 
        L = ['let s0 = T0::sem(input, st);']
        for k in range(1, n): L += ['let r%d = step::<R, TR%d>(s%d);' % (k, k, k - 1), 'let s%d = step::<R, T%d>(r%d);' % (k, k, k)]
        return ' '.join(L)
    L = ['let t0 = T0::trk(input, st, t);']
    for k in range(1, n): L += ['let u%d = step_trk::<R, TR%d>(s%d, t%d);' % (k, k, k - 1, k - 1), 'let t%d = step_trk::<R, T%d>(r%d, u%d);' % (k, k, k, k)]
    o.append("    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { %s s%d }" % (chain(), n - 1))
    o.append("    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { %s %s t%d }" % (chain(), ' '.join(L), n - 1))
    o.append("    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { %s self.field_0.node_ok(input, st) %s }" % (chain(), ' '.join('&& field_ok::<R, T%d>(self.field_%d, r%d)' % (k, k, k) for k in range(1, n))))
    o.append('//@close')
    o.append('//@open core impl Sequence%d' % n)
    o.append('//@fn as_tuple\n    ensures ' + ' '.join('*r.%d == self.field_%d,' % (k, k) for k in range(n)))
    o.append('//@fn into_tuple\n    ensures ' + ' '.join('r.%d == self.field_%d,' % (k, k) for k in range(n)))
    o.append('//@close')
    return '\n'.join(o) + '\n'
PRE_CH = '''// generated by tools/gen_arity.py
// ---------------------------------------------------------------- ordered choices
/// the next alternative, tried from the same place when none matched so far
pub open spec fn alt<'i, R: RuleType, T: TypedNode<'i, R>>(d: Option<Sem<'i>>, input: Position<'i>, st: St<'i>) -> Option<Sem<'i>> {
    match d { Some(s) => d, None => { let s = T::sem(input, st); if s.0 is Some { Some(s) } else { None } } }
}
pub open spec fn alt_trk<'i, R: RuleType, T: TypedNode<'i, R>>(d: Option<Sem<'i>>, input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> {
    match d { Some(s) => t, None => T::trk(input, st, t) }
}
pub open spec fn chosen<'i>(d: Option<Sem<'i>>, st: St<'i>) -> Sem<'i> { match d { Some(s) => s, None => (None, st) } }
'''
def choice(n):
    o = ['//@item core Choice%d' % n, '//@open core impl TypedNode for Choice%d' % n]
    def chain(n):
        return ' '.join(['let d0 = alt::<R, T0>(None, input, st);'] + ['let d%d = alt::<R, T%d>(d%d, input, st);' % (k, k, k - 1) for k in range(1, n)])
    L = ['let t0 = T0::trk(input, st, t);'] + ['let t%d = alt_trk::<R, T%d>(d%d, input, st, t%d);' % (k, k, k - 1, k - 1) for k in range(1, n)]
    o.append("    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { %s chosen(d%d, st) }" % (chain(n), n - 1))
    o.append("    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { %s %s t%d }" % (chain(n), ' '.join(L), n - 1))
    arms = []
    for k in range(n):
        arms.append('Choice%d::Choice%d(c) => %s T%d::sem(input, st).0 is Some && c.node_ok(input, st),' % (n, k, 'd%d is None &&' % (k - 1) if k else '', k))
    o.append("    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { %s match self { %s } }" % (chain(n), ' '.join(arms)))
    o.append('//@close')
    o.append('//@open core impl Choice%d' % n)
    for k in range(n):
        o.append('//@fn choice_%d\n    ensures match self { Choice%d::Choice%d(c) => r == Some(c), _ => r is None },' % (k, n, k) if True else '')
    o.append('//@close')
    return '\n'.join(o) + '\n'
def write(n, t): open('%s/contracts/core/%s.rs' % (V, n), 'w').write(t)
write('53_sequence', PRE_SEQ)
write('54_choice', PRE_CH)
# one file (and verification unit) per group of arities, so that the groups are verified in parallel
for x, a, b in (('a', 2, 9), ('b', 10, 11), ('c', 12, 13), ('d', 14, 14), ('e', 15, 15), ('f', 16, 16)):
    write('53%s_sequence' % x, '// generated by tools/gen_arity.py\n' + ''.join(seq(n) for n in range(a, b + 1)))
for x, a, b in (('a', 2, 11), ('b', 12, 14), ('c', 15, 16)):
    write('54%s_choice' % x, '// generated by tools/gen_arity.py\n' + ''.join(choice(n) for n in range(a, b + 1)))

PRE_P = """// generated by tools/gen_arity.py
pub mod cat {
    use super::*;
    pub broadcast proof fn lemma_assoc<X>(a: Seq<X>, b: Seq<X>, c: Seq<X>)
        ensures #[trigger] (a + (b + c)) == (a + b) + c,
    { assert(a + (b + c) =~= (a + b) + c); }
}
"""
def pseq(n):
    k = ' + '.join('self.field_%d.self_or_kids()' % i for i in range(n))
    return f"""//@item core Sequence{n}
//@open core impl PairContainer for Sequence{n} provided=core
    open spec fn kids(&self) -> Seq<PT<R>> {{ {k} }}
    open spec fn self_or_kids(&self) -> Seq<PT<R>> {{ self.kids() }}
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
"""
def pch(n):
    a = ' '.join('Choice%d::Choice%d(c) => c.self_or_kids(),' % (n, i) for i in range(n))
    return f"""//@item core Choice{n}
//@open core impl PairContainer for Choice{n} provided=core
    open spec fn kids(&self) -> Seq<PT<R>> {{ match self {{ {a} }} }}
    open spec fn self_or_kids(&self) -> Seq<PT<R>> {{ self.kids() }}
//@close
"""
write('61_pairs', PRE_P + ''.join(pseq(n) + pch(n) for n in range(2, 17)))
