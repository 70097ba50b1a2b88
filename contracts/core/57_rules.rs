// Matching, checking and error tracking of a rule
//@rename into 0 vx_into
/// TRUSTED: `into` wraps in a box or is the identity.
pub trait VxInto<U> { spec fn into_ok(self, r: U) -> bool; fn vx_into(self) -> (r: U) ensures self.into_ok(r), ; }
impl<T> VxInto<Box<T>> for T {
    open spec fn into_ok(self, r: Box<T>) -> bool { *r == self }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Box<T>) { unimplemented!() }
}
impl<T> VxInto<T> for T {
    open spec fn into_ok(self, r: T) -> bool { r == self }
    #[verifier::external_body]
    fn vx_into(self) -> (r: T) { unimplemented!() }
}
pub mod nest {
    use super::*;
    pub broadcast proof fn lemma_mark_push<'i, R>(s: Seq<(R, Position<'i>, bool)>, x: (R, Position<'i>, bool))
        ensures #[trigger] mark_last(s.push(x)) == s.push((x.0, x.1, true)),
    { assert(mark_last(s.push(x)) =~= s.push((x.0, x.1, true))); }
    /// entering a rule
    pub broadcast proof fn lemma_enter<'i, R: RuleType, T: TypedNode<'i, R>>(i: Position<'i>, st: St<'i>, t1: TV<'i, R>, t: TV<'i, R>, r: R, p: Position<'i>)
        requires t1 =~~= t.enter(r, p),
        ensures #![trigger <T as TypedNode<'i, R>>::trk(i, st, t1), t.enter(r, p)] t1 == t.enter(r, p),
    { }
    /// leaving it again
    pub broadcast proof fn lemma_leave<'i, R: RuleType>(i: Position<'i>, t: TV<'i, R>, t1: TV<'i, R>, r: R, ok: bool)
        requires t.enter(r, i).le(t1), t1.wf(i.input), t.wf(i.input), i.wf(),
        ensures #![trigger t.enter(r, i), t1.leave(r, i, ok)] t.le(t1.leave(r, i, ok)), t1.leave(r, i, ok).wf(i.input),
    {
        broadcast use {lemma_mark_push, seqs::lemma_push_drop};
    }
    pub broadcast proof fn lemma_frame<'i, R: RuleType>(i: Position<'i>, t: TV<'i, R>, t1: TV<'i, R>, t2: TV<'i, R>)
        requires o_trk(t1, t2), t.le(t1), t1.wf(i.input),
        ensures #![trigger o_frame(i, t, t2), o_trk(t1, t2)] o_frame(i, t, t2),
    { }
}
//@prologue TypedNode broadcast use {nest::lemma_mark_push, nest::lemma_enter, nest::lemma_leave, nest::lemma_frame, seqs::lemma_push_drop}; let ghost _vx1 = (<Self as TypedNode<'i, R>>::trk(input, stack@, tracker@), o_frame(input, tracker@, <Self as TypedNode<'i, R>>::trk(input, stack@, tracker@)));
//@open rules impl TypedNode for rof
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { <e as TypedNode<'i, Rule>>::sem(input, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, Rule>) -> TV<'i, Rule> {
        <e as TypedNode<'i, Rule>>::trk(input, st, t.enter(Rule::rof, input)).leave(Rule::rof, input, <e as TypedNode<'i, Rule>>::sem(input, st).0 is Some)
    }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool {
        match <e as TypedNode<'i, Rule>>::sem(input, st).0 {
            Some(p) => <e as TypedNode<'i, Rule>>::node_ok(&*self.content, input, st) && self.span.input == input.input && self.span.start == input.pos && self.span.end == p.pos,
            None => false,
        }
    }
//@close
//@item rules rtwo
//@open rules impl TypedNode for rtwo
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { <Sequence2<e, Empty, f, Empty> as TypedNode<'i, Rule>>::sem(input, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, Rule>) -> TV<'i, Rule> {
        <Sequence2<e, Empty, f, Empty> as TypedNode<'i, Rule>>::trk(input, st, t.enter(Rule::rtwo, input)).leave(Rule::rtwo, input, <Sequence2<e, Empty, f, Empty> as TypedNode<'i, Rule>>::sem(input, st).0 is Some)
    }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool {
        match <Sequence2<e, Empty, f, Empty> as TypedNode<'i, Rule>>::sem(input, st).0 {
            Some(p) => <Sequence2<e, Empty, f, Empty> as TypedNode<'i, Rule>>::node_ok(&*self.content, input, st) && self.span.input == input.input && self.span.start == input.pos && self.span.end == p.pos,
            None => false,
        }
    }
//@close
