// TRUSTED: Ord on usize
#[verifier::external_body]
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { core::cmp::min(a, b) }
#[verifier::external_body]
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }) { core::cmp::max(a, b) }
pub trait VxMinMax: Sized { fn vx_min(self, o: Self) -> Self; fn vx_max(self, o: Self) -> Self; }
impl VxMinMax for usize {
    #[verifier::external_body]
    fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { core::cmp::min(self, o) }
    #[verifier::external_body]
    fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self <= o { o } else { self }) { core::cmp::max(self, o) }
}
// ---------------------------------------------------------------- Span
//@item core Span
impl<'i> Span<'i> {
    pub open spec fn wf(self) -> bool { bnd(self.input, self.start as int) && bnd(self.input, self.end as int) && self.start <= self.end }
    /// the characters of the span
    pub open spec fn text(self) -> Seq<char> { mid(self.input, self.start as int, self.end as int) }
}
impl<'i> Clone for Span<'i> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<'i> Copy for Span<'i> {}
pub use vstd::std_specs::range::RangeBoundsSpec;
// TRUSTED: a range reports its own bounds
pub trait VxRangeBounds: RangeBounds<usize> {
    fn vx_start_bound(&self) -> Bound<&usize>;
    fn vx_end_bound(&self) -> Bound<&usize>;
}
impl<R: RangeBounds<usize>> VxRangeBounds for R {
    #[verifier::external_body]
    fn vx_start_bound(&self) -> (r: Bound<&usize>) ensures r == self.spec_start_bound() { self.start_bound() }
    #[verifier::external_body]
    fn vx_end_bound(&self) -> (r: Bound<&usize>) ensures r == self.spec_end_bound() { self.end_bound() }
}
/// first / one-past-last offset named by a range over a text of `n` bytes
pub open spec fn lo_of(b: Bound<&usize>) -> int {
    match b { Bound::Included(x) => *x as int, Bound::Excluded(x) => *x + 1, Bound::Unbounded => 0 }
}
pub open spec fn hi_of(b: Bound<&usize>, n: int) -> int {
    match b { Bound::Included(x) => *x + 1, Bound::Excluded(x) => *x as int, Bound::Unbounded => n }
}
/// sub-slices of a slice
pub proof fn lemma_sub(s: &str, a: int, b: int)
    requires bnd(s, a), bnd(s, b), a <= b
    ensures
        forall |i: int| #![trigger is_char_boundary(sb(s).subrange(a, b), i)] 0 <= i <= b - a ==> is_char_boundary(sb(s).subrange(a, b), i) == bnd(s, a + i),
        sb(s).subrange(a, b).len() == b - a,
{
    lemma_valid(s); lemma_bnd_iff_sub(s, a, b);
    let t = sb(s).subrange(a, sb(s).len() as int);
    let u = sb(s).subrange(a, b);
    lemma_tail_bytes(s, a);
    assert(t.subrange(0, b - a) =~= u);
    assert forall |i: int| #![trigger is_char_boundary(u, i)] 0 <= i <= b - a implies is_char_boundary(u, i) == bnd(s, a + i) by {
        lemma_bnd_shift(sb(s), a, i);
        if i < b - a {
            is_char_boundary_iff_is_leading_byte(u, i);
            is_char_boundary_iff_is_leading_byte(t, i);
            assert(u[i] == t[i]);
        } else { lemma_bnd_end(u); }
    }
}
//@open core impl Span
//@fn new_unchecked
    requires bnd(input, start as int), bnd(input, end as int), start <= end,
    ensures r.input == input, r.start == start, r.end == end, r.wf(),
//@fn new
    ensures r is Some <==> (bnd(input, start as int) && bnd(input, end as int) && start <= end),
        r is Some ==> r->0.input == input && r->0.start == start && r->0.end == end,
        r is Some ==> r->0.wf(),
//@fn get
    requires self.wf(),
    ensures
        r is Some <==> ({ let (a, b) = (lo_of(range.spec_start_bound()), hi_of(range.spec_end_bound(), self.end - self.start));
            a <= b && b <= self.end - self.start && bnd(self.input, self.start + a) && bnd(self.input, self.start + b) }),
        r is Some ==> ({ let (a, b) = (lo_of(range.spec_start_bound()), hi_of(range.spec_end_bound(), self.end - self.start));
            r->0.input == self.input && r->0.start == self.start + a && r->0.end == self.start + b }),
        r is Some ==> r->0.wf(),
//@start
    proof { lemma_sub(self.input, self.start as int, self.end as int); }
//@fn start
    ensures r == self.start,
//@fn end
    ensures r == self.end,
//@fn start_pos
    requires self.wf(),
    ensures r.input == self.input, r.pos == self.start, r.wf(),
//@fn end_pos
    requires self.wf(),
    ensures r.input == self.input, r.pos == self.end, r.wf(),
//@fn split
    requires self.wf(),
    ensures r.0.input == self.input, r.0.pos == self.start, r.0.wf(), r.1.input == self.input, r.1.pos == self.end, r.1.wf(),
//@fn as_str
    requires self.wf(),
    ensures sb(r) == sb(self.input).subrange(self.start as int, self.end as int), r@ == self.text(),
//@fn get_input
    ensures r == self.input,
//@fn lines
    requires self.wf(),
    ensures r.inner.span == self, r.inner.pos == self.start,
//@fn lines_span
    requires self.wf(),
    ensures r.span == self, r.pos == self.start,
//@close
//@open core impl Position
//@fn span
    requires self.wf(), other.wf(), self.input == other.input, self.pos <= other.pos,
    ensures r.input == self.input, r.start == self.pos, r.end == other.pos, r.wf(),
//@close
//@free core merge_spans
    requires a.wf(), b.wf(), a.input == b.input,
    ensures
        r is Some <==> (a.end >= b.start && a.start <= b.end),
        r is Some ==> r->0.wf(),
        r is Some ==> r->0.input == a.input
            && r->0.start == (if a.start <= b.start { a.start } else { b.start })
            && r->0.end == (if a.end >= b.end { a.end } else { b.end }),
//@end

// equality of positions and spans
impl<'i> PartialEqSpecImpl for Position<'i> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Position<'i>) -> bool { self.input == other.input && self.pos == other.pos }
}
//@open core impl PartialEq for Position
//@close
impl<'i> PartialEqSpecImpl for Span<'i> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Span<'i>) -> bool { self.input == other.input && self.start == other.start && self.end == other.end }
}
//@open core impl PartialEq for Span
//@close
pub open spec fn ord_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait VxCmp: Sized {
    spec fn cmp_req(&self, other: &Self) -> bool;
    spec fn cmp_spec(&self, other: &Self) -> Ordering;
    fn vx_cmp(&self, other: &Self) -> (r: Ordering)
        requires self.cmp_req(other),
        ensures r == self.cmp_spec(other);
}
impl VxCmp for usize {
    open spec fn cmp_req(&self, other: &usize) -> bool { true }
    open spec fn cmp_spec(&self, other: &usize) -> Ordering { ord_of(*self as int, *other as int) }
    #[verifier::external_body]
    fn vx_cmp(&self, other: &usize) -> (r: Ordering) { core::cmp::Ord::cmp(self, other) }
}
// ---------------------------------------------------------------- lines of a span
/// a whole line of `s`: non-empty, delimited by line feeds or the ends of the input
pub open spec fn is_line(s: &str, a: int, b: int) -> bool {
    &&& bnd(s, a) && bnd(s, b) && a < b
    &&& a == 0 || ends_lf(mid(s, 0, a))
    &&& b == sb(s).len() || ends_lf(mid(s, 0, b))
    &&& forall |i: int| 0 <= i < mid(s, a, b).len() - 1 ==> #[trigger] mid(s, a, b)[i] != '\n'
}
pub open spec fn ends_lf(c: Seq<char>) -> bool { c.len() > 0 && c.last() == '\n' }
pub open spec fn line_start(s: &str, p: int) -> bool { bnd(s, p) && (p == 0 || p == sb(s).len() || ends_lf(mid(s, 0, p))) }
pub proof fn lemma_is_line(s: &str, p: int)
    requires bnd(s, p), p < sb(s).len()
    ensures ({ let a = off(s, line_lo(s, p) as int) as int; let b = off(s, line_hi(s, p) as int) as int;
        &&& is_line(s, a, b) &&& a <= p < b &&& line_start(s, b) &&& (line_start(s, p) ==> a == p)
        &&& b <= sb(s).len() }),
{
    let lo = line_lo(s, p) as int; let hi = line_hi(s, p) as int; let k = chars_before(s, p) as int;
    lemma_off(s, p); lemma_valid(s);
    lemma_lc_meaning(mid(s, 0, p)); lemma_upto_bound(tail(s, p));
    lemma_tail_bytes(s, p);
    if tail(s, p).len() == 0 { assert(tail(s, p) =~= seq![]); assert(blen(tail(s, p)) == 0); }
    assert(lo <= k < hi <= s@.len());
    lemma_off_bnd(s, lo); lemma_off_bnd(s, hi); lemma_mid_chars(s, lo, hi); lemma_mid_chars(s, 0, lo); lemma_mid_chars(s, 0, hi);
    assert(s@.take(0) =~= seq![]); assert(blen(seq![]) == 0); assert(off(s, 0) == 0);
    if lo < k { lemma_blen_strict(s@, lo, k); }
    lemma_blen_strict(s@, k, hi);
    lemma_last(mid(s, 0, p)); lemma_firstl(tail(s, p));
    let c = mid(s, 0, p); let t = tail(s, p);
    assert(forall |i: int| 0 <= i < k ==> #[trigger] s@[i] == c[i]);
    assert(forall |i: int| k <= i < s@.len() ==> #[trigger] s@[i] == t[i - k]);
    let m = s@.subrange(lo, hi);
    assert forall |i: int| 0 <= i < m.len() - 1 implies #[trigger] m[i] != '\n' by {
        assert(m[i] == s@[lo + i]);
        if lo + i < k { assert(c[lo + i] != '\n'); } else { assert(t[lo + i - k] != '\n'); }
    }
    if lo > 0 { assert(s@.subrange(0, lo).last() == s@[lo - 1]); }
    if hi < s@.len() { assert(s@.subrange(0, hi).last() == s@[hi - 1]); } else { assert(s@.take(hi) =~= s@); }
    if line_start(s, p) && p > 0 { assert(c.last() == c[c.len() - 1]); assert(lo == k); }
    if p == 0 { assert(c =~= seq![]) by { assert(sb(s).subrange(0, 0) =~= seq![]); lemma_len_le_blen(c); } }
}
proof fn lemma_last(c: Seq<char>)
    ensures ({ let j = after_last_lf(c) as int; &&& j <= c.len() &&& (j > 0 ==> c[j - 1] == '\n') &&& (forall |i: int| j <= i < c.len() ==> #[trigger] c[i] != '\n') }),
      ends_lf(c) ==> after_last_lf(c) == c.len()
    decreases c.len()
{ if c.len() > 0 { lemma_last(c.drop_last()); let j = after_last_lf(c) as int;
    if c.last() != '\n' { assert forall |i: int| j <= i < c.len() implies #[trigger] c[i] != '\n' by { if i < c.len() - 1 { assert(c.drop_last()[i] == c[i]); } } } } }
proof fn lemma_firstl(c: Seq<char>)
    ensures ({ let j = upto_first_lf(c) as int; &&& j <= c.len() &&& (j < c.len() ==> j > 0 && c[j - 1] == '\n') &&& (forall |i: int| 0 <= i < j - 1 ==> #[trigger] c[i] != '\n') }),
    decreases c.len()
{ if c.len() > 0 && c[0] != '\n' { let d = c.drop_first(); lemma_firstl(d); let j = upto_first_lf(c) as int;
    assert(j == 1 + upto_first_lf(d));
    assert forall |i: int| 0 <= i < j - 1 implies #[trigger] c[i] != '\n' by { if i > 0 { assert(d[i - 1] == c[i]); } }
    if j < c.len() { assert(d[j - 2] == c[j - 1]); } } }

pub trait VxIterator: Sized {
    type Item;
    spec fn inv(&self) -> bool;
    spec fn valid_item(r: Option<Self::Item>) -> bool;
    spec fn step(&self, fin: &Self, r: Option<Self::Item>) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(), Self::valid_item(r), old(self).step(final(self), r);
}
//@item core LinesSpan
//@open core impl Iterator for LinesSpan as=VxIterator
    open spec fn inv(&self) -> bool { self.span.wf() && bnd(self.span.input, self.pos as int) }
    open spec fn valid_item(r: Option<Span<'i>>) -> bool { r is Some ==> r->0.wf() }
    open spec fn step(&self, fin: &Self, r: Option<Span<'i>>) -> bool {
        &&& fin.span == self.span
        &&& r is None <==> (self.pos > self.span.end || self.pos == sb(self.span.input).len())
        &&& r is None ==> fin.pos == self.pos
        &&& r is Some ==> {
            let l = r->0;
            &&& l.input == self.span.input && is_line(l.input, l.start as int, l.end as int)
            &&& l.start <= self.pos < l.end && fin.pos == l.end
            &&& line_start(l.input, fin.pos as int)
            &&& line_start(l.input, self.pos as int) ==> l.start == self.pos
        }
    }
//@fn next
//@start
    proof { if self.pos < sb(self.span.input).len() { lemma_is_line(self.span.input, self.pos as int); axiom_str_len(self.span.input);
       lemma_rest_empty(Position { input: self.span.input, pos: self.pos });
    } }
//@close
//@item core Lines
//@open core impl Iterator for Lines as=VxIterator
    open spec fn inv(&self) -> bool { self.inner.inv() }
    open spec fn valid_item(r: Option<&'i str>) -> bool { true }
    open spec fn step(&self, fin: &Self, r: Option<&'i str>) -> bool {
        exists |x: Option<Span<'i>>| #[trigger] self.inner.step(&fin.inner, x) && (r is Some <==> x is Some) && (r is Some ==> r->0@ == x->0.text())
    }
//@fn next
//@close
