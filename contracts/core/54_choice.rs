// generated by tools/gen_arity.py
// ---------------------------------------------------------------- ordered choices
/// the next alternative, tried from the same place when none matched so far
pub open spec fn alt<'i, R: RuleType, T: TypedNode<'i, R>>(d: Option<Sem<'i>>, input: Position<'i>, st: St<'i>) -> Option<Sem<'i>> {
    match d { Some(s) => d, None => { let s = T::sem(input, st); if s.0 is Some { Some(s) } else { None } } }
}
pub open spec fn alt_trk<'i, R: RuleType, T: TypedNode<'i, R>>(d: Option<Sem<'i>>, input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> {
    match d { Some(s) => t, None => T::trk(input, st, t) }
}
pub open spec fn chosen<'i>(d: Option<Sem<'i>>, st: St<'i>) -> Sem<'i> { match d { Some(s) => s, None => (None, st) } }
