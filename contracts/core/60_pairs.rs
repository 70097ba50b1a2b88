//@sink for_each_child_pair for_self_or_for_each_child_pair
//@instantiate for_self_or_for_each_child_pair
// ---------------------------------------------------------------- pair trees
//@item core Pair
/// a pair tree as a value
#[verifier::ext_equal]
pub ghost struct PT<R> { pub rule: R, pub start: int, pub end: int, pub children: Seq<PT<R>> }
pub open spec fn pt<R>(p: Pair<R>) -> PT<R> decreases p {
    PT { rule: p.rule, start: p.start as int, end: p.end as int, children: Seq::new(p.children@.len(), |i: int| if 0 <= i < p.children@.len() { pt(p.children@[i]) } else { arbitrary() }) }
}
pub open spec fn pts<R>(s: Seq<Pair<R>>) -> Seq<PT<R>> { Seq::new(s.len(), |i: int| pt(s[i])) }
/// What a callback `f: &mut impl FnMut(X)` is called with, in order (see vx/src/sink.rs).
pub struct VxSink<X> { pub v: Vec<X> }
impl<X> VxSink<X> {
    pub open spec fn view(&self) -> Seq<X> { self.v@ }
    pub fn new() -> (r: Self) ensures r@ == Seq::<X>::empty() { VxSink { v: Vec::new() } }
    pub fn put(&mut self, x: X) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
}
pub mod ptl {
    use super::*;
    pub broadcast proof fn lemma_pts_push<R>(s: Seq<Pair<R>>, x: Pair<R>)
        ensures #[trigger] pts(s.push(x)) == pts(s).push(pt(x)),
    { assert(pts(s.push(x)) =~= pts(s).push(pt(x))); }
    pub broadcast proof fn lemma_add_empty<X>(s: Seq<X>)
        ensures #[trigger] (s + Seq::<X>::empty()) == s,
    { assert(s + Seq::<X>::empty() =~= s); }
    pub broadcast proof fn lemma_add_push<X>(s: Seq<X>, x: X)
        ensures #[trigger] (s + seq![x]) == s.push(x),
    { assert(s + seq![x] =~= s.push(x)); }
    pub broadcast proof fn lemma_pt<R>(p: Pair<R>)
        ensures (#[trigger] pt(p)).children == pts(p.children@),
    { assert(pt(p).children =~= pts(p.children@)); }
    pub broadcast proof fn lemma_pts_empty<R>()
        ensures #[trigger] pts(Seq::<Pair<R>>::empty()) == Seq::<PT<R>>::empty(),
    { assert(pts(Seq::<Pair<R>>::empty()) =~= Seq::<PT<R>>::empty()); }
}
//@prologue PairContainer broadcast use {ptl::lemma_pts_push, ptl::lemma_add_empty, ptl::lemma_add_push, ptl::lemma_pts_empty}; let ghost _vx0 = |n: Self| (<Self as PairContainer<R>>::kids(&n), <Self as PairContainer<R>>::self_or_kids(&n));
//@open core trait PairContainer listed
    /// the rule nodes in the content, in match order
    spec fn kids(&self) -> Seq<PT<R>>;
    /// itself when it is a rule node, else the rule nodes in its content
    spec fn self_or_kids(&self) -> Seq<PT<R>>;
//@fn for_self_or_for_each_child_pair
    ensures pts(final(f)@) =~= pts(old(f)@) + self.self_or_kids(),
//@fn for_each_child_pair
    ensures pts(final(f)@) =~= pts(old(f)@) + self.kids(),
//@fn vec_children_pairs
    ensures pts(r@) =~= self.kids(),
//@start
    broadcast use {ptl::lemma_pts_push, ptl::lemma_add_empty, ptl::lemma_pts_empty};
//@loop 0
    invariant vec@ == vx_sink0.v@.take(it0.index@ as int), it0.seq() == vx_sink0.v@,
//@loopstart 0
    proof { assert(vx_sink0.v@.take(it0.index@ + 1) =~= vx_sink0.v@.take(it0.index@ as int).push(vx_sink0.v@[it0.index@ as int])); }
//@close
//@open core impl PairContainer for Option provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Some(n) => n.self_or_kids(), None => Seq::empty() } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core RepMinMax
//@item core Phantom
/// concatenation over a list of items
pub open spec fn flat<R, T: PairContainer<R>>(s: Seq<T>) -> Seq<PT<R>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat::<R, T>(s.drop_last()) + s.last().self_or_kids() } }
//@open core impl PairContainer for RepMinMax provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { flat::<R, T>(self.content@) }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    proof { assert(self.content@.take(self.content@.len() as int) =~= self.content@); assert(self.content@.take(0).len() == 0); }
//@loop 0
    invariant it0.index@ <= self.content@.len(), it0.seq().len() == self.content@.len(), forall |k: int| 0 <= k < it0.seq().len() ==> *#[trigger] it0.seq()[k] == self.content@[k],
        pts(f@) =~= pts(old(f)@) + flat::<R, T>(self.content@.take(it0.index@ as int)),
//@loopstart 0
    proof {
        let n = it0.index@ as int;
        assert(self.content@.take(n + 1).drop_last() =~= self.content@.take(n));
        assert(self.content@.take(n + 1).last() == self.content@[n]);
    }
//@close
//@item core push
//@open core impl PairContainer for push provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.content.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@open core trait EmptyPairContainer
//@close
//@open core impl PairContainer for T provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { Seq::empty() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { Seq::empty() }
//@close
