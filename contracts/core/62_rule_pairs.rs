//@inline as_pair_tree
//@instantiate vec_children_pairs
// Pairs of a rule. `as_pair_tree` is inlined here (Verus rejects the cycle PairContainer for rof ->
// provided method of PairTree -> its supertrait PairContainer), its own contract is proved in 60t.
//@open core trait PairTree listed as=PairTree sup=Sized
    spec fn rule_spec() -> R;
    spec fn span_spec(&self) -> (usize, usize);
//@fn get_rule
    ensures r == Self::rule_spec(),
//@fn get_span
    ensures r == self.span_spec(),
//@close
//@open rules impl PairContainer for rof provided=core
    open spec fn kids(&self) -> Seq<PT<Rule>> { self.content.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<Rule>> { seq![PT { rule: Rule::rof, start: self.span.start as int, end: self.span.end as int, children: self.content.self_or_kids() }] }
//@fn vec_children_pairs
//@start
    broadcast use {ptl::lemma_pts_push, ptl::lemma_add_empty, ptl::lemma_pts_empty};
//@loop 0
    invariant vec@ == vx_sink0.v@.take(it0.index@ as int), it0.seq() == vx_sink0.v@,
//@loopstart 0
    proof { assert(vx_sink0.v@.take(it0.index@ + 1) =~= vx_sink0.v@.take(it0.index@ as int).push(vx_sink0.v@[it0.index@ as int])); }
//@fn for_self_or_for_each_child_pair
//@start
    broadcast use ptl::lemma_pt;
//@close
//@open rules impl PairTree for rof
    open spec fn rule_spec() -> Rule { Rule::rof }
    open spec fn span_spec(&self) -> (usize, usize) { (self.span.start, self.span.end) }
//@close
