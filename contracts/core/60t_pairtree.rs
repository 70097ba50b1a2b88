// The pair tree of a rule node
//@open core trait PairTree listed
    spec fn rule_spec() -> R;
    spec fn span_spec(&self) -> (usize, usize);
//@fn get_rule
    ensures r == Self::rule_spec(),
//@fn get_span
    ensures r == self.span_spec(),
//@fn as_pair_tree
    ensures pt(r) =~~= (PT { rule: Self::rule_spec(), start: self.span_spec().0 as int, end: self.span_spec().1 as int, children: self.kids() }),
//@start
    broadcast use ptl::lemma_pt;
//@close

pub open spec fn rule_conv<R: Clone, S, F: Fn(R) -> S>(a: R, c: &F, b: S) -> bool { exists |r: R| vstd::pervasive::cloned(a, r) && #[trigger] call_ensures(*c, (r,), b) }
/// `o` is `p` with every rule mapped by the converter (applied to a clone), everything else the same
pub open spec fn converted<R: Clone, S, F: Fn(R) -> S>(p: Pair<R>, c: &F, o: Pair<S>) -> bool
    decreases p
{
    &&& rule_conv(p.rule, c, o.rule)
    &&& o.start == p.start && o.end == p.end && o.children@.len() == p.children@.len()
    &&& forall |i: int| 0 <= i < p.children@.len() ==> converted(#[trigger] p.children@[i], c, o.children@[i])
}
//@open core impl Pair
//@fn convert
    requires forall |r: R| call_requires(*converter, (r,)),
    ensures converted(*self, converter, r),
    decreases self,
//@loop 0
    invariant
        vx_out0@.len() == it0.index@, it0.index@ <= self.children@.len(), it0.seq().len() == self.children@.len(),
        forall |r: R| call_requires(*converter, (r,)),
        forall |i: int| 0 <= i < it0.seq().len() ==> *#[trigger] it0.seq()[i] == self.children@[i],
        forall |i: int| 0 <= i < vx_out0@.len() ==> converted(#[trigger] self.children@[i], converter, vx_out0@[i]),
//@close
