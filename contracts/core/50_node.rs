// ---------------------------------------------------------------- errors
/// TRUSTED: the error built from a tracker is a function of the tracker's state.
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct Error<R> { r: core::marker::PhantomData<R> }
pub uninterp spec fn err_of<'i, R>(t: TV<'i, R>) -> Error<R>;
impl<'i, R: RuleType> Tracker<'i, R> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Box<Error<R>>)
        ensures *r == err_of(self@),
    { unimplemented!() }
}
// ---------------------------------------------------------------- expressions
/// What an attempt reaches: the end position (None: no match) and the resulting match stack.
pub type Sem<'i> = (Option<Position<'i>>, St<'i>);
/// the cursor: valid, in the same input, never moved backwards; the stack holds valid spans
pub open spec fn o_valid<'i>(input: Position<'i>, p: Option<Position<'i>>, st1: St<'i>) -> bool {
    &&& st_wf(st1)
    &&& match p {
        Some(p) => p.wf() && p.input == input.input && p.pos >= input.pos,
        None => true,
    }
}
/// matches exactly when the language says so, and ends there
pub open spec fn o_lang<'i>(sem: Sem<'i>, p: Option<Position<'i>>) -> bool { p == sem.0 }
/// the match stack afterwards
pub open spec fn o_stack<'i>(sem: Sem<'i>, st1: St<'i>) -> bool { st1 =~= sem.1 }
/// every snapshot taken is released, the older ones are unaffected
pub open spec fn o_snaps<'i>(sn0: Seq<St<'i>>, sn1: Seq<St<'i>>) -> bool { sn1 =~= sn0 }
/// the failure tracker afterwards
pub open spec fn o_trk<'i, R>(trk: TV<'i, R>, t1: TV<'i, R>) -> bool { t1 =~~= trk }
/// polarity and enclosing rules are left alone, the failure position is valid and only moves forward
pub open spec fn o_frame<'i, R>(input: Position<'i>, t: TV<'i, R>, t1: TV<'i, R>) -> bool { t.le(t1) && t1.wf(input.input) }
/// end of a match of the whole remaining input
pub open spec fn full<'i>(s: Sem<'i>) -> Option<Position<'i>> {
    match s.0 { Some(p) => if p.rest().len() == 0 { s.0 } else { None }, None => None }
}
pub open spec fn full_trk<'i, R: RuleType>(s: Sem<'i>, t: TV<'i, R>) -> TV<'i, R> {
    match s.0 { Some(p) => t.enter(R::EOI, p).leave(R::EOI, p, p.rest().len() == 0), None => t }
}
/// a terminal: matches exactly the texts for which `n` (number of leading characters consumed) is Some
pub open spec fn term<'i>(input: Position<'i>, st: St<'i>, n: Option<int>) -> Sem<'i> {
    match n { Some(n) => (Some(input.adv(input.rest().take(n))), st), None => (None, st) }
}
pub open spec fn opt_pos<'i, T>(r: Option<(Position<'i>, T)>) -> Option<Position<'i>> { match r { Some((p, _)) => Some(p), None => None } }
//@open core trait TypedNode listed
    /// the language: where a match starting at `input` with match stack `st` ends
    spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i>;
    /// what the attempt does to the failure tracker
    spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R>;
    /// the tree describes the match that starts at `input` with match stack `st`
    spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool;
//@fn try_parse_with_partial
    requires input.wf(), st_wf(old(stack)@), old(tracker)@.wf(input.input),
    ensures
        o_valid(input, opt_pos(r), final(stack)@),
        o_lang(Self::sem(input, old(stack)@), opt_pos(r)),
        o_stack(Self::sem(input, old(stack)@), final(stack)@),
        o_snaps(old(stack).snaps(), final(stack).snaps()),
        o_trk(Self::trk(input, old(stack)@, old(tracker)@), final(tracker)@),
        o_frame(input, old(tracker)@, final(tracker)@),
        match r { Some((_, n)) => n.node_ok(input, old(stack)@), None => true },
//@fn check_with_partial
    requires input.wf(), st_wf(old(stack)@), old(tracker)@.wf(input.input),
    ensures
        o_valid(input, r, final(stack)@),
        o_lang(Self::sem(input, old(stack)@), r),
        o_stack(Self::sem(input, old(stack)@), final(stack)@),
        o_snaps(old(stack).snaps(), final(stack).snaps()),
        o_trk(Self::trk(input, old(stack)@, old(tracker)@), final(tracker)@),
        o_frame(input, old(tracker)@, final(tracker)@),
//@close
// expressions that cannot fail (the Debug + Clone + PartialEq + Default bounds of the trait are dropped)
//@open core trait NeverFailedTypedNode listed nowhere sup=Sized
    /// where the match ends and the resulting stack
    spec fn nf_sem(input: Position<'i>, st: St<'i>) -> (Position<'i>, St<'i>);
    spec fn nf_ok(&self, input: Position<'i>, st: St<'i>) -> bool;
//@fn parse_with_partial
    requires input.wf(), st_wf(old(stack)@),
    ensures
        o_valid(input, Some(r.0), final(stack)@),
        r.0 == Self::nf_sem(input, old(stack)@).0,
        o_stack((Some(r.0), Self::nf_sem(input, old(stack)@).1), final(stack)@),
        o_snaps(old(stack).snaps(), final(stack).snaps()),
        r.1.nf_ok(input, old(stack)@),
//@fn parse_partial
    ensures ({
        let p0 = Position { input, pos: 0 };
        r.0 == Self::nf_sem(p0, seq![]).0 && r.1.nf_ok(p0, seq![]) }),
//@close
// ---------------------------------------------------------------- optional
//@open core impl TypedNode for Option
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> {
        match T::sem(input, st).0 { Some(p) => T::sem(input, st), None => (Some(input), st) }
    }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { T::trk(input, st, t) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool {
        match self { Some(n) => T::sem(input, st).0 is Some && n.node_ok(input, st), None => T::sem(input, st).0 is None }
    }
//@close
// ---------------------------------------------------------------- end and start of input
//@item core eoi
//@open core impl TypedNode for eoi
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { if input.rest().len() == 0 { (Some(input), st) } else { (None, st) } }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@close
//@item core soi
//@open core impl TypedNode for soi
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { if input.pos == 0 { (Some(input), st) } else { (None, st) } }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@close
// ---------------------------------------------------------------- entry points
// The trait's provided methods, as a trait of their own (Verus rejects the cycle trait TypedNode ->
// provided method -> impl TypedNode for eoi -> trait TypedNode).
//@open core trait TypedNode listed as=VxEntry sup=TypedNode<'i,R>
//@fn try_parse_with
    requires input.wf(), st_wf(old(stack)@), old(tracker)@.wf(input.input),
    ensures
        final(stack).snaps() == old(stack).snaps(), final(stack)@ == Self::sem(input, old(stack)@).1,
        r is Some <==> full(Self::sem(input, old(stack)@)) is Some,
        r is Some ==> r->0.node_ok(input, old(stack)@),
        final(tracker)@ =~~= full_trk(Self::sem(input, old(stack)@), Self::trk(input, old(stack)@, old(tracker)@)),
//@fn check_with
    requires input.wf(), st_wf(old(stack)@), old(tracker)@.wf(input.input),
    ensures
        final(stack).snaps() == old(stack).snaps(), final(stack)@ == Self::sem(input, old(stack)@).1,
        r <==> full(Self::sem(input, old(stack)@)) is Some,
        final(tracker)@ =~~= full_trk(Self::sem(input, old(stack)@), Self::trk(input, old(stack)@, old(tracker)@)),
//@fn try_parse_partial
    ensures ({
        let p0 = Position { input, pos: 0 };
        let (s, t) = (Self::sem(p0, seq![]), Self::trk(p0, seq![], TV::start(p0)));
        match r {
            Ok((p, n)) => s.0 == Some(p) && n.node_ok(p0, seq![]),
            Err(e) => s.0 is None && *e == err_of(t),
        } }),
//@fn try_parse
    ensures ({
        let p0 = Position { input, pos: 0 };
        let (s, t) = (Self::sem(p0, seq![]), Self::trk(p0, seq![], TV::start(p0)));
        match r {
            Ok(n) => full(s) is Some && n.node_ok(p0, seq![]),
            Err(e) => full(s) is None && *e == err_of(full_trk(s, t)),
        } }),
//@fn check_partial
    ensures ({
        let p0 = Position { input, pos: 0 };
        let (s, t) = (Self::sem(p0, seq![]), Self::trk(p0, seq![], TV::start(p0)));
        match r {
            Ok(p) => s.0 == Some(p),
            Err(e) => s.0 is None && *e == err_of(t),
        } }),
//@fn check
    ensures ({
        let p0 = Position { input, pos: 0 };
        let (s, t) = (Self::sem(p0, seq![]), Self::trk(p0, seq![], TV::start(p0)));
        match r {
            Ok(_) => full(s) is Some,
            Err(e) => full(s) is None && *e == err_of(full_trk(s, t)),
        } }),
//@close
impl<'i, R: RuleType, T: TypedNode<'i, R>> VxEntry<'i, R> for T {}
