// ---------------------------------------------------------------- repetition
/// one repetition: trivia before every one but the first
pub open spec fn unit_sem<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(i: int, p: Position<'i>, st: St<'i>) -> Sem<'i> {
    if i > 0 { step::<R, T>(TRIVIA::sem(p, st)) } else { T::sem(p, st) }
}
pub open spec fn unit_trk<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(i: int, p: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> {
    if i > 0 { step_trk::<R, T>(TRIVIA::sem(p, st), TRIVIA::trk(p, st, t)) } else { T::trk(p, st, t) }
}
/// the item describes repetition `i`
pub open spec fn unit_ok<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(n: T, i: int, p: Position<'i>, st: St<'i>) -> bool {
    if i > 0 { field_ok::<R, T>(n, TRIVIA::sem(p, st)) } else { n.node_ok(p, st) }
}
/// greedy repetition from the `i`-th on: as many as match, up to max; an incomplete one leaves no effect
pub open spec fn rep_sem<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(i: int, min: int, max: int, p: Position<'i>, st: St<'i>) -> Sem<'i>
    decreases max - i
{
    if i >= max { (Some(p), st) } else {
        let s = unit_sem::<R, T, TRIVIA>(i, p, st);
        match s.0 {
            Some(q) => rep_sem::<R, T, TRIVIA>(i + 1, min, max, q, s.1),
            None => if i < min { (None, st) } else { (Some(p), st) },
        }
    }
}
pub open spec fn rep_trk<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(i: int, min: int, max: int, p: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R>
    decreases max - i
{
    if i >= max { t } else {
        let s = unit_sem::<R, T, TRIVIA>(i, p, st);
        let t1 = unit_trk::<R, T, TRIVIA>(i, p, st, t);
        match s.0 { Some(q) => rep_trk::<R, T, TRIVIA>(i + 1, min, max, q, s.1, t1), None => t1 }
    }
}
/// where `n` repetitions end
pub open spec fn rep_at<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(n: int, p: Position<'i>, st: St<'i>) -> Sem<'i>
    decreases n
{
    if n <= 0 { (Some(p), st) } else {
        let s = rep_at::<R, T, TRIVIA>(n - 1, p, st);
        match s.0 { Some(q) => unit_sem::<R, T, TRIVIA>(n - 1, q, s.1), None => s }
    }
}
pub open spec fn item_ok<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(n: T, k: int, p: Position<'i>, st: St<'i>) -> bool {
    let s = rep_at::<R, T, TRIVIA>(k, p, st);
    s.0 is Some && unit_ok::<R, T, TRIVIA>(n, k, s.0->0, s.1)
}
pub open spec fn items_ok<'i, R: RuleType, T: TypedNode<'i, R>, TRIVIA: TypedNode<'i, R>>(c: Seq<T>, p: Position<'i>, st: St<'i>) -> bool {
    forall |k: int| 0 <= k < c.len() ==> item_ok::<R, T, TRIVIA>(#[trigger] c[k], k, p, st)
}
//@item core Phantom
//@open core impl Default for Phantom
//@fn default
//@close
//@item core RepMinMax
//@open core impl TypedNode for RepMinMax
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { rep_sem::<R, T, TRIVIA>(0, MIN as int, MAX as int, input, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { rep_trk::<R, T, TRIVIA>(0, MIN as int, MAX as int, input, st, t) }
    /// all the repetitions that matched, in order
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool {
        let n = self.content@.len() as int;
        let s = rep_at::<R, T, TRIVIA>(n, input, st);
        &&& items_ok::<R, T, TRIVIA>(self.content@, input, st)
        &&& MIN <= MAX ==> MIN <= n
        &&& n <= MAX && s.0 is Some && (n == MAX || unit_sem::<R, T, TRIVIA>(n, s.0->0, s.1).0 is None)
    }
//@fn try_parse_with_partial
//@noiso
//@start
    let ghost in0 = input; let ghost st0 = stack@;
//@loop 0
    invariant_except_break
        it0.index@ <= MAX,
        input.wf(), input.input == in0.input, input.pos >= in0.pos, in0.wf(),
        st_wf(stack@), stack.snaps() =~= old(stack).snaps(), st0 == old(stack)@,
        tracker@.wf(in0.input), old(tracker)@.le(tracker@),
        rep_at::<R, T, TRIVIA>(it0.index@ as int, in0, st0) == (Some(input), stack@),
        rep_sem::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0) == rep_sem::<R, T, TRIVIA>(it0.index@ as int, MIN as int, MAX as int, input, stack@),
        rep_trk::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0, old(tracker)@) == rep_trk::<R, T, TRIVIA>(it0.index@ as int, MIN as int, MAX as int, input, stack@, tracker@),
        vec@.len() == it0.index@,
    invariant
        items_ok::<R, T, TRIVIA>(vec@, in0, st0),
        st0 == old(stack)@, in0.wf(),
    ensures
        input.wf(), input.input == in0.input, input.pos >= in0.pos,
        st_wf(stack@), stack.snaps() =~= old(stack).snaps(),
        tracker@.wf(in0.input), old(tracker)@.le(tracker@),
        rep_sem::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0) == (Some(input), stack@),
        rep_trk::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0, old(tracker)@) == tracker@,
        vec@.len() <= MAX, MIN <= MAX ==> MIN <= vec@.len(),
        rep_at::<R, T, TRIVIA>(vec@.len() as int, in0, st0) == (Some(input), stack@),
        vec@.len() == MAX || unit_sem::<R, T, TRIVIA>(vec@.len() as int, input, stack@).0 is None,
//@loopstart 0
    broadcast use frames::lemma_mark_mark;
    assert(i == it0.index@);
    let ghost p0 = input; let ghost s0 = stack@; let ghost v0 = vec@;
//@loopend 0
    proof {
        assert(rep_at::<R, T, TRIVIA>(i as int, in0, st0) == (Some(p0), s0));
        assert(vec@.len() == i + 1);
        assert(unit_ok::<R, T, TRIVIA>(vec@[i as int], i as int, p0, s0));
        assert(item_ok::<R, T, TRIVIA>(vec@[i as int], i as int, in0, st0));
        assert forall |k: int| 0 <= k < vec@.len() implies item_ok::<R, T, TRIVIA>(#[trigger] vec@[k], k, in0, st0) by { if k < i { assert(vec@[k] == v0[k]); } }
    }
//@fn check_with_partial
//@noiso
//@start
    let ghost in0 = input; let ghost st0 = stack@;
//@loop 0
    invariant_except_break
        it0.index@ <= MAX,
        input.wf(), input.input == in0.input, input.pos >= in0.pos, in0.wf(),
        st_wf(stack@), stack.snaps() =~= old(stack).snaps(), st0 == old(stack)@,
        tracker@.wf(in0.input), old(tracker)@.le(tracker@),
        rep_at::<R, T, TRIVIA>(it0.index@ as int, in0, st0) == (Some(input), stack@),
        rep_sem::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0) == rep_sem::<R, T, TRIVIA>(it0.index@ as int, MIN as int, MAX as int, input, stack@),
        rep_trk::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0, old(tracker)@) == rep_trk::<R, T, TRIVIA>(it0.index@ as int, MIN as int, MAX as int, input, stack@, tracker@),
    invariant
        st0 == old(stack)@, in0.wf(),
    ensures
        input.wf(), input.input == in0.input, input.pos >= in0.pos,
        st_wf(stack@), stack.snaps() =~= old(stack).snaps(),
        tracker@.wf(in0.input), old(tracker)@.le(tracker@),
        rep_sem::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0) == (Some(input), stack@),
        rep_trk::<R, T, TRIVIA>(0, MIN as int, MAX as int, in0, st0, old(tracker)@) == tracker@,
//@loopstart 0
    broadcast use frames::lemma_mark_mark;
    assert(i == it0.index@);
//@close
//@open core impl NeverFailedTypedNode for RepMinMax
    open spec fn nf_sem(input: Position<'i>, st: St<'i>) -> (Position<'i>, St<'i>) {
        let s = rep_sem::<R, T, TRIVIA>(0, 0, MAX as int, input, st); (s.0->0, s.1)
    }
    open spec fn nf_ok(&self, input: Position<'i>, st: St<'i>) -> bool {
        let n = self.content@.len() as int;
        let s = rep_at::<R, T, TRIVIA>(n, input, st);
        &&& items_ok::<R, T, TRIVIA>(self.content@, input, st)
        &&& n <= MAX && s.0 is Some && (n == MAX || unit_sem::<R, T, TRIVIA>(n, s.0->0, s.1).0 is None)
    }
//@fn parse_with_partial
//@noiso
//@start
    let ghost in0 = input; let ghost st0 = stack@;
//@loop 0
    invariant_except_break
        it0.index@ <= MAX,
        input.wf(), input.input == in0.input, input.pos >= in0.pos, in0.wf(),
        st_wf(stack@), stack.snaps() =~= old(stack).snaps(), st0 == old(stack)@,
        tracker@.wf(in0.input),
        rep_at::<R, T, TRIVIA>(it0.index@ as int, in0, st0) == (Some(input), stack@),
        rep_sem::<R, T, TRIVIA>(0, 0, MAX as int, in0, st0) == rep_sem::<R, T, TRIVIA>(it0.index@ as int, 0, MAX as int, input, stack@),
        vec@.len() == it0.index@,
    invariant
        items_ok::<R, T, TRIVIA>(vec@, in0, st0),
        st0 == old(stack)@, in0.wf(),
    ensures
        input.wf(), input.input == in0.input, input.pos >= in0.pos,
        st_wf(stack@), stack.snaps() =~= old(stack).snaps(),
        tracker@.wf(in0.input),
        rep_sem::<R, T, TRIVIA>(0, 0, MAX as int, in0, st0) == (Some(input), stack@),
        vec@.len() <= MAX,
        rep_at::<R, T, TRIVIA>(vec@.len() as int, in0, st0) == (Some(input), stack@),
        vec@.len() == MAX || unit_sem::<R, T, TRIVIA>(vec@.len() as int, input, stack@).0 is None,
//@loopstart 0
    broadcast use frames::lemma_mark_mark;
    assert(i == it0.index@);
    let ghost p0 = input; let ghost s0 = stack@; let ghost v0 = vec@;
//@loopend 0
    proof {
        assert(rep_at::<R, T, TRIVIA>(i as int, in0, st0) == (Some(p0), s0));
        assert(vec@.len() == i + 1);
        assert(unit_ok::<R, T, TRIVIA>(vec@[i as int], i as int, p0, s0));
        assert(item_ok::<R, T, TRIVIA>(vec@[i as int], i as int, in0, st0));
        assert forall |k: int| 0 <= k < vec@.len() implies item_ok::<R, T, TRIVIA>(#[trigger] vec@[k], k, in0, st0) by { if k < i { assert(vec@[k] == v0[k]); } }
    }
//@close
