// ---------------------------------------------------------------- stack expressions
/// match the texts of spans one after another
pub open spec fn peek_to<'i>(p: Position<'i>, s: St<'i>) -> Option<Position<'i>>
    decreases s.len()
{
    if s.len() == 0 { Some(p) }
    else if s[0].text().is_prefix_of(p.rest()) { peek_to(p.adv(s[0].text()), s.skip(1)) }
    else { None }
}
pub proof fn lemma_peek_to<'i>(p: Position<'i>, s: St<'i>)
    requires p.wf()
    ensures match peek_to(p, s) { Some(q) => q.wf() && q.input == p.input && q.pos >= p.pos, None => true }
    decreases s.len()
{
    if s.len() > 0 && s[0].text().is_prefix_of(p.rest()) { lemma_adv(p, s[0].text()); lemma_peek_to(p.adv(s[0].text()), s.skip(1)); }
}
/// absolute index for a slice bound: non-negative from the bottom, negative from the top
pub open spec fn abs_ix(i: isize, len: int) -> Option<int> {
    if 0 <= i <= len { Some(i as int) } else if -len <= i < 0 { Some(i + len) } else { None }
}
pub open spec fn abs_end(e: Option<isize>, len: int) -> Option<int> { match e { Some(e) => abs_ix(e, len), None => Some(len) } }
/// the selected spans, bottom first
pub open spec fn slice_of<'i>(s: St<'i>, start: isize, end: Option<isize>) -> Option<St<'i>> {
    match (abs_ix(start, s.len() as int), abs_end(end, s.len() as int)) {
        (Some(a), Some(b)) => if a < b { Some(s.subrange(a, b)) } else { Some(seq![]) },
        _ => None,
    }
}
pub open spec fn slice_sem<'i>(input: Position<'i>, st: St<'i>, start: isize, end: Option<isize>) -> Sem<'i> {
    (match slice_of(st, start, end) { Some(s) => peek_to(input, s), None => None }, st)
}
pub open spec fn slice_trk<'i, R>(input: Position<'i>, st: St<'i>, t: TV<'i, R>, start: isize, end: Option<isize>) -> TV<'i, R> {
    if slice_of(st, start, end) is None { t.special(input, SpecialError::SliceOutOfBound(start, end)) } else { t }
}
/// matching the top span
pub open spec fn top_sem<'i>(input: Position<'i>, st: St<'i>, st1: St<'i>) -> Sem<'i> {
    if st.len() > 0 && st.last().text().is_prefix_of(input.rest()) { (Some(input.adv(st.last().text())), st1) } else { (None, st1) }
}
pub open spec fn top_trk<'i, R>(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> {
    if st.len() == 0 { t.special(input, SpecialError::EmptyStack) } else { t }
}
pub open spec fn popped<'i>(st: St<'i>) -> St<'i> { if st.len() > 0 { st.drop_last() } else { st } }
pub open spec fn span_of<'i>(s: Span<'i>, a: Position<'i>, b: Option<Position<'i>>) -> bool {
    match b { Some(b) => s.input == a.input && s.start == a.pos && s.end == b.pos, None => false }
}
//@free core constrain_idx
    requires len <= isize::MAX,
    ensures match r { Some(x) => abs_ix(index, len as int) == Some(x as int), None => abs_ix(index, len as int) is None },
//@free core constrain_idxs
    requires len <= isize::MAX,
    ensures match r {
        Some(x) => abs_ix(start, len as int) == Some(x.start as int) && abs_end(end, len as int) == Some(x.end as int),
        None => abs_ix(start, len as int) is None || abs_end(end, len as int) is None },
//@end
pub open spec fn derefs<'i>(s: Seq<&Span<'i>>) -> St<'i> { Seq::new(s.len(), |i: int| *s[i]) }
pub proof fn lemma_derefs<'i>(s: Seq<&Span<'i>>, n: int)
    requires 0 <= n < s.len()
    ensures derefs(s.skip(n))[0] == *s[n], derefs(s.skip(n)).skip(1) == derefs(s.skip(n + 1)), derefs(s.skip(n)).len() > 0
{ assert(derefs(s.skip(n)).skip(1) =~= derefs(s.skip(n + 1))); }
pub broadcast proof fn lemma_derefs_rev<'i>(s: Seq<&Span<'i>>, st: St<'i>)
    requires s.len() == st.len(), forall |i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == st[st.len() - 1 - i],
    ensures #![trigger derefs(s), st.reverse()] derefs(s) == st.reverse(),
{ assert(derefs(s) =~= st.reverse()); }
//@free core peek_spans
    requires input.wf(), vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&iter),
        st_wf(derefs(vstd::std_specs::iter::IteratorSpec::remaining(&iter))),
        vstd::std_specs::iter::IteratorSpec::decrease(&iter) is Some,
    ensures
        final(_tracker)@ == old(_tracker)@,
        match r {
            Some((p, s)) => peek_to(input, derefs(vstd::std_specs::iter::IteratorSpec::remaining(&iter))) == Some(p) && span_of(s, input, Some(p)) && s.wf(),
            None => peek_to(input, derefs(vstd::std_specs::iter::IteratorSpec::remaining(&iter))) is None,
        },
//@start
    let ghost all = vstd::std_specs::iter::IteratorSpec::remaining(&iter);
    proof { lemma_peek_to(input, derefs(all)); assert(all.skip(0) =~= all); }
//@loop 0
    invariant
        0 <= it0.index@ <= all.len(), matching_pos.wf(), matching_pos.input == input.input, matching_pos.pos >= input.pos, input.wf(),
        all == it0.seq(), st_wf(derefs(all)), vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it0.iter),
        peek_to(input, derefs(all)) == peek_to(matching_pos, derefs(all.skip(it0.index@ as int))),
//@loopstart 0
    proof { lemma_derefs(all, it0.index@); if (*all[it0.index@]).text().is_prefix_of(matching_pos.rest()) { lemma_adv(matching_pos, (*all[it0.index@]).text()); } assert(derefs(all)[it0.index@].wf()); }
//@end
//@path slice::Iter::default vx_iter_default
//@path core::slice::Iter::default vx_iter_default
/// TRUSTED: the default slice iterator is empty.
#[verifier::external_body]
pub fn vx_iter_default<'s, T>() -> (r: core::slice::Iter<'s, T>)
    ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == Seq::<&'s T>::empty(),
        vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
{ unimplemented!() }
//@free core stack_slice
    requires input.input == old(tracker)@.position.input,
    ensures
        final(tracker)@ == slice_trk(input, stack@, old(tracker)@, start, end),
        match r {
            Some(it) => {
                &&& vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&it)
                &&& vstd::std_specs::iter::IteratorSpec::decrease(&it) is Some
                &&& slice_of(stack@, start, end) is Some
                &&& derefs(vstd::std_specs::iter::IteratorSpec::remaining(&it)) =~= slice_of(stack@, start, end)->0
            },
            None => slice_of(stack@, start, end) is None,
        },
//@end
//@item core peek_all
//@open core impl TypedNode for peek_all
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { (peek_to(input, st.reverse()), st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { span_of(self.span, input, peek_to(input, st.reverse())) }
//@fn try_parse_with_partial
//@start
    proof { lemma_peek_to(input, stack@.reverse()); }
    broadcast use lemma_derefs_rev;
//@fn check_with_partial
//@start
    proof { lemma_peek_to(input, stack@.reverse()); }
    broadcast use lemma_derefs_rev;
//@close
//@item core peek
impl<'i> vstd::std_specs::convert::FromSpecImpl<Span<'i>> for peek<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(span: Span<'i>) -> Self { peek { span } }
}
//@open core impl From for peek
//@fn from
    ensures r.span == span,
//@close
//@open core impl TypedNode for peek
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { top_sem(input, st, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { top_trk(input, st, t) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { span_of(self.span, input, top_sem(input, st, st).0) }
//@fn try_parse_with_partial
//@start
    proof { if stack@.len() > 0 { assert(stack@.last().wf()); if stack@.last().text().is_prefix_of(input.rest()) { lemma_adv(input, stack@.last().text()); } } }
//@fn check_with_partial
//@start
    proof { if stack@.len() > 0 { assert(stack@.last().wf()); if stack@.last().text().is_prefix_of(input.rest()) { lemma_adv(input, stack@.last().text()); } } }
//@close
//@item core drop
//@open core impl TypedNode for drop
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { (if st.len() > 0 { Some(input) } else { None }, popped(st)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { top_trk(input, st, t) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@fn try_parse_with_partial
//@fn check_with_partial
//@close
//@item core pop
impl<'i> vstd::std_specs::convert::FromSpecImpl<Span<'i>> for pop<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(span: Span<'i>) -> Self { pop { span } }
}
//@open core impl From for pop
//@fn from
    ensures r.span == span,
//@close
//@open core impl TypedNode for pop
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { top_sem(input, st, popped(st)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { top_trk(input, st, t) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { st.len() > 0 && self.span == st.last() }
//@fn try_parse_with_partial
//@start
    proof { if stack@.len() > 0 { assert(stack@.last().wf()); if stack@.last().text().is_prefix_of(input.rest()) { lemma_adv(input, stack@.last().text()); } } }
//@fn check_with_partial
//@start
    proof { if stack@.len() > 0 { assert(stack@.last().wf()); if stack@.last().text().is_prefix_of(input.rest()) { lemma_adv(input, stack@.last().text()); } } }
//@close
//@item core pop_all
impl<'i> vstd::std_specs::convert::FromSpecImpl<Span<'i>> for pop_all<'i> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(span: Span<'i>) -> Self { pop_all { span } }
}
//@open core impl From for pop_all
//@fn from
    ensures r.span == span,
//@close
//@open core impl TypedNode for pop_all
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { match peek_to(input, st.reverse()) { Some(p) => (Some(p), seq![]), None => (None, st) } }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { span_of(self.span, input, peek_to(input, st.reverse())) }
//@fn try_parse_with_partial
//@start
    proof { lemma_peek_to(input, stack@.reverse()); }
//@loop 0
    invariant stack.snaps() == old(stack).snaps(), st_wf(stack@), tracker@ == old(tracker)@,
    ensures stack@.len() == 0,
    decreases stack@.len(),
//@fn check_with_partial
//@start
    proof { lemma_peek_to(input, stack@.reverse()); }
//@loop 0
    invariant stack.snaps() == old(stack).snaps(), st_wf(stack@), tracker@ == old(tracker)@,
    ensures stack@.len() == 0,
    decreases stack@.len(),
//@close
//@item core PeekSlice2
//@open core impl TypedNode for PeekSlice2
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { slice_sem(input, st, START, Some(END)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { slice_trk(input, st, t, START, Some(END)) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@fn try_parse_with_partial
//@start
    proof { match slice_of(stack@, START, Some(END)) { Some(s) => { lemma_peek_to(input, s); assert(st_wf(s)); }, None => {} } }
//@fn check_with_partial
//@start
    proof { match slice_of(stack@, START, Some(END)) { Some(s) => { lemma_peek_to(input, s); assert(st_wf(s)); }, None => {} } }
//@close
//@item core PeekSlice1
//@open core impl TypedNode for PeekSlice1
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { slice_sem(input, st, START, None) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { slice_trk(input, st, t, START, None) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@fn try_parse_with_partial
//@start
    proof { match slice_of(stack@, START, None) { Some(s) => { lemma_peek_to(input, s); assert(st_wf(s)); }, None => {} } }
//@fn check_with_partial
//@start
    proof { match slice_of(stack@, START, None) { Some(s) => { lemma_peek_to(input, s); assert(st_wf(s)); }, None => {} } }
//@close
//@item core push
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for push<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(content: T) -> Self { push { content } }
}
//@open core impl From for push
//@fn from
    ensures r.content == content,
//@close
//@open core impl TypedNode for push
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s = T::sem(input, st);
        match s.0 { Some(p) => (s.0, s.1.push(Span { input: input.input, start: input.pos, end: p.pos })), None => s } }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { T::trk(input, st, t) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { self.content.node_ok(input, st) }
//@fn try_parse_with_partial
//@fn check_with_partial
//@close
//@item core Positive
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for Positive<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(content: T) -> Self { Positive { content } }
}
//@open core impl From for Positive
//@fn from
    ensures r.content == content,
//@close
//@open core impl TypedNode for Positive
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { (match T::sem(input, st).0 { Some(p) => Some(input), None => None }, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { T::trk(input, st, t.polarity(true)).polarity(t.positive) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { self.content.node_ok(input, st) }
//@fn try_parse_with_partial
//@fn check_with_partial
//@close
//@item core Negative
//@open core impl From for Negative
//@fn from
//@close
//@open core impl TypedNode for Negative
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { (match T::sem(input, st).0 { Some(p) => None, None => Some(input) }, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { T::trk(input, st, t.polarity(false)).polarity(t.positive) }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@fn try_parse_with_partial
//@fn check_with_partial
//@close
