// ---------------------------------------------------------------- lines and columns
/// Line and column of the position after the characters `cs`.
pub open spec fn lc(cs: Seq<char>) -> (nat, nat)
    decreases cs.len()
{
    if cs.len() == 0 { (1, 1) } else {
        let (l, c) = lc(cs.drop_last());
        if cs.last() == '\n' { (l + 1, 1) } else { (l, c + 1) }
    }
}
pub open spec fn count_lf(cs: Seq<char>) -> nat
    decreases cs.len()
{ if cs.len() == 0 { 0 } else { count_lf(cs.drop_last()) + if cs.last() == '\n' { 1nat } else { 0nat } } }
/// number of characters up to and including the last line feed
pub open spec fn after_last_lf(cs: Seq<char>) -> nat
    decreases cs.len()
{ if cs.len() == 0 { 0 } else if cs.last() == '\n' { cs.len() } else { after_last_lf(cs.drop_last()) } }
/// number of characters up to and including the first line feed (all of them when there is none)
pub open spec fn upto_first_lf(cs: Seq<char>) -> nat
    decreases cs.len()
{ if cs.len() == 0 { 0 } else if cs[0] == '\n' { 1 } else { 1 + upto_first_lf(cs.drop_first()) } }

/// C03: what `lc` says in the words of the property.
pub proof fn lemma_lc_meaning(cs: Seq<char>)
    ensures lc(cs).0 == 1 + count_lf(cs), lc(cs).1 == 1 + (cs.len() - after_last_lf(cs)), after_last_lf(cs) <= cs.len(),
        lc(cs).0 <= cs.len() + 1, lc(cs).1 <= cs.len() + 1,
    decreases cs.len()
{ if cs.len() > 0 { lemma_lc_meaning(cs.drop_last()); } }
pub proof fn lemma_after_last_lf(cs: Seq<char>, j: int)
    requires 0 <= j <= cs.len(), j == 0 || cs[j - 1] == '\n', forall |i: int| j <= i < cs.len() ==> #[trigger] cs[i] != '\n'
    ensures after_last_lf(cs) == j
    decreases cs.len()
{
    if cs.len() > j { assert(cs.last() == cs[cs.len() - 1]); lemma_after_last_lf(cs.drop_last(), j); }
}
pub proof fn lemma_upto_first_lf(cs: Seq<char>, j: int)
    requires 0 <= j <= cs.len(), j == cs.len() || (j > 0 && cs[j - 1] == '\n'), forall |i: int| 0 <= i < j - 1 ==> #[trigger] cs[i] != '\n',
        j == cs.len() && j > 0 ==> true,
    ensures upto_first_lf(cs) == j
    decreases cs.len()
{
    if cs.len() > 0 {
        if cs[0] == '\n' { } else {
            assert forall |i: int| 0 <= i < j - 2 implies #[trigger] cs.drop_first()[i] != '\n' by { assert(cs[i + 1] != '\n'); }
            lemma_upto_first_lf(cs.drop_first(), j - 1);
        }
    }
}
pub proof fn lemma_blen_strict(cs: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= cs.len()
    ensures blen(cs.take(i)) < blen(cs.take(j)) <= blen(cs)
    decreases j - i
{
    lemma_take_snoc(cs, j - 1);
    lemma_blen_mono(cs, j);
    if i < j - 1 { lemma_blen_strict(cs, i, j - 1); }
}
pub open spec fn chars_before(s: &str, p: int) -> nat { mid(s, 0, p).len() }
/// the byte offset after the first `k` characters
pub open spec fn off(s: &str, k: int) -> nat { blen(s@.take(k)) }
pub proof fn lemma_off(s: &str, p: int)
    requires bnd(s, p)
    ensures chars_before(s, p) <= s@.len(), off(s, chars_before(s, p) as int) == p, s@.take(chars_before(s, p) as int) == mid(s, 0, p),
        s@.skip(chars_before(s, p) as int) == tail(s, p),
        forall |i: int| 0 <= i < s@.len() ==> (#[trigger] off(s, i) < p <==> i < chars_before(s, p)),
{
    lemma_valid(s); lemma_tail_bytes(s, p); lemma_bnd_iff_sub(s, 0, p);
    let k = chars_before(s, p) as int;
    assert(s@.take(k) =~= mid(s, 0, p));
    assert(s@.skip(k) =~= tail(s, p));
    assert(sb(s).subrange(0, p).len() == p);
    assert forall |i: int| 0 <= i < s@.len() implies (#[trigger] off(s, i) < p <==> i < k) by {
        if i < k { lemma_blen_strict(s@, i, k); } else if i > k { lemma_blen_strict(s@, k, i); }
    }
}
pub proof fn lemma_off_bnd(s: &str, k: int)
    requires 0 <= k <= s@.len()
    ensures bnd(s, off(s, k) as int), chars_before(s, off(s, k) as int) == k
{
    lemma_valid(s);
    lemma_tail_bytes(s, 0);
    assert(tail(s, 0) == s@) by { assert(sb(s).subrange(0, sb(s).len() as int) =~= sb(s)); }
    assert(s@.take(k).is_prefix_of(s@));
    lemma_advance(s, 0, s@.take(k));
}
pub proof fn lemma_mid_chars(s: &str, i: int, j: int)
    requires 0 <= i <= j <= s@.len()
    ensures mid(s, off(s, i) as int, off(s, j) as int) == s@.subrange(i, j), off(s, i) <= off(s, j),
{
    lemma_off_bnd(s, i); lemma_off_bnd(s, j); lemma_off(s, off(s, i) as int); lemma_off(s, off(s, j) as int);
    if i < j { lemma_blen_strict(s@, i, j); }
    lemma_bnd_iff_sub(s, off(s, i) as int, off(s, j) as int);
    let m = mid(s, off(s, i) as int, off(s, j) as int);
    let r = tail(s, off(s, j) as int);
    assert(s@.skip(i) == m + r); assert(s@.skip(j) == r);
    assert(m =~= s@.subrange(i, j)) by {
        assert(m.len() == j - i);
        assert forall |x: int| 0 <= x < m.len() implies m[x] == s@.subrange(i, j)[x] by { assert(s@.skip(i)[x] == (m + r)[x]); }
    }
}
/// first / one-past-last character index of the line containing position `p`
pub open spec fn line_lo(s: &str, p: int) -> nat { after_last_lf(mid(s, 0, p)) }
pub open spec fn line_hi(s: &str, p: int) -> nat { chars_before(s, p) + upto_first_lf(tail(s, p)) }
pub proof fn lemma_upto_bound(cs: Seq<char>) ensures upto_first_lf(cs) <= cs.len(), cs.len() > 0 ==> upto_first_lf(cs) > 0 decreases cs.len()
{ if cs.len() > 0 { lemma_upto_bound(cs.drop_first()); } }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxPeek<T> { v: Vec<T> }
impl<T> VxPeek<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures r is Some <==> self@.len() > 0, r is Some ==> *r->0 == self@[0],
    { unimplemented!() }
}
pub trait VxPeekable { fn vx_peekable(self) -> VxPeek<char>; }
impl<'a> VxPeekable for core::str::Chars<'a> {
    #[verifier::external_body]
    fn vx_peekable(self) -> (r: VxPeek<char>)
        ensures r@ == vstd::std_specs::iter::IteratorSpec::remaining(&self)
    { unimplemented!() }
}

//@open core impl Position
//@fn line_col
    requires self.wf(),
    ensures r.0 == lc(mid(self.input, 0, self.pos as int)).0, r.1 == lc(mid(self.input, 0, self.pos as int)).1,
//@start
    let ghost cs = mid(self.input, 0, self.pos as int);
    proof { lemma_off(self.input, self.pos as int); lemma_bnd_iff_sub(self.input, 0, self.pos as int); assert(cs.skip(0) =~= cs); assert(cs.take(0) =~= seq![]);
       lemma_len_le_blen(cs); }
//@loop 0
    invariant
        chars@.len() <= cs.len(), chars@ == cs.skip(cs.len() - chars@.len()), pos == blen(chars@),
        line_col.0 == lc(cs.take(cs.len() - chars@.len())).0, line_col.1 == lc(cs.take(cs.len() - chars@.len())).1,
        cs.len() <= isize::MAX,
    ensures chars@.len() == 0,
    decreases pos
//@loopstart 0
    proof {
        let k = cs.len() - chars@.len();
        lemma_lc_meaning(cs.take(k));
        if chars@.len() == 0 { assert(chars@ =~= seq![]); assert(encode_utf8(chars@).len() == 0); }
        if chars@.len() > 0 {
            lemma_lc_step(cs, k);
            lemma_lc_meaning(cs.take(k + 1));
            lemma_skip_len(chars@);
        }
        if chars@.len() > 1 { lemma_lc_step(cs, k + 1); lemma_skip_len(chars@.skip(1)); assert(chars@.skip(1).skip(1) =~= cs.skip(k + 2)); }
        assert(chars@.skip(1) =~= cs.skip(k + 1));
        lemma_lf_len();
    }
//@fn find_line_start
    requires self.wf(),
    ensures r == off(self.input, line_lo(self.input, self.pos as int) as int), r <= self.pos, bnd(self.input, r as int),
//@start
    proof {
        let s = self.input; let p = self.pos as int;
        lemma_off(s, p); lemma_lc_meaning(mid(s, 0, p)); lemma_off_bnd(s, line_lo(s, p) as int);
        lemma_line_lo(s, p); lemma_offs(s); lemma_mid_chars(s, line_lo(s, p) as int, chars_before(s, p) as int);
    }
//@fn find_line_end
    requires self.wf(),
    ensures r == off(self.input, line_hi(self.input, self.pos as int) as int), r >= self.pos, bnd(self.input, r as int),
//@start
    proof {
        let s = self.input; let p = self.pos as int;
        lemma_off(s, p); lemma_upto_bound(tail(s, p)); lemma_off_bnd(s, line_hi(s, p) as int);
        lemma_line_hi(s, p); lemma_offs(s); lemma_mid_chars(s, chars_before(s, p) as int, line_hi(s, p) as int);
    }
//@fn line_of
    requires self.wf(),
    ensures r@ == self.input@.subrange(line_lo(self.input, self.pos as int) as int, line_hi(self.input, self.pos as int) as int),
        sb(r) == sb(self.input).subrange(off(self.input, line_lo(self.input, self.pos as int) as int) as int, off(self.input, line_hi(self.input, self.pos as int) as int) as int),
//@start
    proof {
        let s = self.input; let p = self.pos as int;
        lemma_off(s, p); lemma_upto_bound(tail(s, p)); lemma_lc_meaning(mid(s, 0, p));
        lemma_mid_chars(s, line_lo(s, p) as int, line_hi(s, p) as int);
    }
//@close
pub proof fn lemma_len_le_blen(cs: Seq<char>) ensures cs.len() <= blen(cs) decreases cs.len()
{ if cs.len() > 0 { lemma_take_snoc(cs, cs.len() - 1); lemma_len_le_blen(cs.take(cs.len() - 1)); assert(cs.take(cs.len() as int) =~= cs); } }
pub proof fn lemma_skip_len(cs: Seq<char>) requires cs.len() > 0 ensures blen(cs) == encode_scalar(cs[0] as u32).len() + blen(cs.skip(1))
{ assert(cs =~= seq![cs[0]] + cs.skip(1)); lemma_encode_bnd(seq![cs[0]], cs.skip(1)); lemma_char_len(cs[0]); }
pub proof fn lemma_lc_step(cs: Seq<char>, k: int)
    requires 0 <= k < cs.len()
    ensures lc(cs.take(k + 1)) == (if cs[k] == '\n' { (lc(cs.take(k)).0 + 1, 1nat) } else { (lc(cs.take(k)).0, lc(cs.take(k)).1 + 1) })
{ assert(cs.take(k + 1).drop_last() =~= cs.take(k)); }
pub proof fn lemma_lf_len() ensures encode_scalar('\n' as u32).len() == 1, encode_scalar('\r' as u32).len() == 1 { }
proof fn lemma_offs(s: &str)
    ensures forall |i: int| 0 <= i < s@.len() ==> #[trigger] off(s, i) == off(s, i) as usize
{ 
    axiom_str_len(s); lemma_valid(s);
    assert forall |i: int| 0 <= i < s@.len() implies #[trigger] off(s, i) == off(s, i) as usize by { lemma_blen_mono(s@, i); } }
proof fn lemma_off_step(s: &str, f: int)
    requires 0 <= f < s@.len(), s@[f] == '\n'
    ensures off(s, f + 1) == off(s, f) + 1, off(s, f) < isize::MAX
{ lemma_take_snoc(s@, f); lemma_lf_len(); lemma_blen_mono(s@, f + 1); axiom_str_len(s); lemma_valid(s); }
/// the first `k` items are exactly those dropped by a `skip_while` (i >= p resp. i < p)
pub open spec fn cut_ge(v: Seq<(usize, char)>, p: int, k: int) -> bool {
    0 <= k <= v.len() && (forall |i: int| 0 <= i < k ==> (#[trigger] v[i]).0 >= p) && (k < v.len() ==> v[k].0 < p)
}
pub open spec fn cut_lt(v: Seq<(usize, char)>, p: int, k: int) -> bool {
    0 <= k <= v.len() && (forall |i: int| 0 <= i < k ==> (#[trigger] v[i]).0 < p) && (k < v.len() ==> v[k].0 >= p)
}
pub open spec fn no_lf(w: Seq<(usize, char)>, m: int) -> bool { forall |i: int| 0 <= i < m ==> (#[trigger] w[i]).1 != '\n' }
pub open spec fn rev_cis(s: &str) -> Seq<(usize, char)> { cis(s).reverse() }
proof fn lemma_lo_some(s: &str, p: int, k: int, m: int)
    requires bnd(s, p), cut_ge(rev_cis(s), p, k), 0 <= m < rev_cis(s).len() - k, no_lf(rev_cis(s).skip(k), m), rev_cis(s).skip(k)[m].1 == '\n'
    ensures rev_cis(s).skip(k)[m].0 + 1 == off(s, line_lo(s, p) as int), rev_cis(s).skip(k)[m].0 < isize::MAX
{
    lemma_off(s, p); lemma_offs(s);
    let c = mid(s, 0, p); let v = rev_cis(s); let n = s@.len() as int;
    assert forall |i: int| 0 <= i < n implies v[i] == (off(s, n - 1 - i) as usize, s@[n - 1 - i]) by { }
    let w = v.skip(k); let f = n - 1 - k - m;
    assert(w[m] == v[k + m]);
    lemma_off_step(s, f);
    assert(v[k].0 < p);
    assert(off(s, n - 1 - k) < p);
    if m > 0 { lemma_blen_strict(s@, f, n - 1 - k); }
    assert(off(s, f) < p);
    assert(f < c.len());
    assert(c[f] == s@[f]);
    assert forall |i: int| f + 1 <= i < c.len() implies #[trigger] c[i] != '\n' by {
        assert(c[i] == s@[i]);
        let x = n - 1 - i;
        assert(off(s, i) < p);
        assert(v[x] == (off(s, i) as usize, s@[i]));
        assert(x >= k);
        assert(w[x - k] == v[x]);
    }
    lemma_after_last_lf(c, f + 1);
}
proof fn lemma_lo_none(s: &str, p: int, k: int)
    requires bnd(s, p), cut_ge(rev_cis(s), p, k), no_lf(rev_cis(s).skip(k), rev_cis(s).len() - k)
    ensures off(s, line_lo(s, p) as int) == 0
{
    lemma_off(s, p); lemma_offs(s);
    let c = mid(s, 0, p); let v = rev_cis(s); let n = s@.len() as int;
    assert forall |i: int| 0 <= i < n implies v[i] == (off(s, n - 1 - i) as usize, s@[n - 1 - i]) by { }
    let w = v.skip(k);
    assert forall |i: int| 0 <= i < c.len() implies #[trigger] c[i] != '\n' by {
        assert(c[i] == s@[i]);
        let x = n - 1 - i;
        assert(off(s, i) < p);
        assert(v[x] == (off(s, i) as usize, s@[i]));
        assert(x >= k);
        assert(w[x - k] == v[x]);
    }
    lemma_after_last_lf(c, 0);
    assert(s@.take(0) =~= seq![]);
    assert(blen(seq![]) == 0);
}
proof fn lemma_hi_some(s: &str, p: int, k: int, m: int)
    requires bnd(s, p), cut_lt(cis(s), p, k), 0 <= m < cis(s).len() - k, no_lf(cis(s).skip(k), m), cis(s).skip(k)[m].1 == '\n'
    ensures cis(s).skip(k)[m].0 + 1 == off(s, line_hi(s, p) as int), cis(s).skip(k)[m].0 < isize::MAX
{
    lemma_off(s, p); lemma_offs(s);
    let c = tail(s, p); let v = cis(s); let n = s@.len() as int; let cb = chars_before(s, p) as int;
    let w = v.skip(k); let f = k + m;
    assert(w[m] == v[f]);
    lemma_off_step(s, f);
    assert(v[k] == (off(s, k) as usize, s@[k]));
    assert(off(s, k) >= p);
    assert(k >= cb);
    assert(k <= cb) by { if cb < k { assert(v[cb].0 < p); assert(off(s, cb) < p); } }
    assert(c[f - cb] == s@[f]);
    assert forall |i: int| 0 <= i < f - cb implies #[trigger] c[i] != '\n' by {
        assert(c[i] == s@[i + cb]);
        assert(w[i + cb - k] == v[i + cb]);
    }
    lemma_upto_first_lf(c, f + 1 - cb);
}
proof fn lemma_hi_none(s: &str, p: int, k: int)
    requires bnd(s, p), cut_lt(cis(s), p, k), no_lf(cis(s).skip(k), cis(s).len() - k)
    ensures off(s, line_hi(s, p) as int) == sb(s).len()
{
    lemma_off(s, p); lemma_offs(s); lemma_valid(s);
    let c = tail(s, p); let v = cis(s); let n = s@.len() as int; let cb = chars_before(s, p) as int;
    assert(s@.take(n) =~= s@);
    let w = v.skip(k);
    assert(k <= cb) by { if cb < k { assert(v[cb].0 < p); assert(off(s, cb) < p); } }
    assert forall |i: int| 0 <= i < c.len() implies #[trigger] c[i] != '\n' by {
        assert(c[i] == s@[i + cb]);
        assert(w[i + cb - k] == v[i + cb]);
    }
    lemma_upto_first_lf(c, c.len() as int);
}
proof fn lemma_line_lo(s: &str, p: int)
    requires bnd(s, p)
    ensures
        forall |k: int, m: int| #![trigger cis(s).reverse().skip(k)[m]]
            cut_ge(rev_cis(s), p, k) && 0 <= m < rev_cis(s).len() - k && no_lf(rev_cis(s).skip(k), m) && rev_cis(s).skip(k)[m].1 == '\n'
            ==> cis(s).reverse().skip(k)[m].0 + 1 == off(s, line_lo(s, p) as int) && cis(s).reverse().skip(k)[m].0 < isize::MAX,
        forall |k: int| #![trigger cis(s).reverse().skip(k)]
            cut_ge(rev_cis(s), p, k) && no_lf(rev_cis(s).skip(k), rev_cis(s).len() - k) ==> off(s, line_lo(s, p) as int) == 0,
{
    assert forall |k: int, m: int| #![trigger cis(s).reverse().skip(k)[m]]
            cut_ge(rev_cis(s), p, k) && 0 <= m < rev_cis(s).len() - k && no_lf(rev_cis(s).skip(k), m) && rev_cis(s).skip(k)[m].1 == '\n'
            implies cis(s).reverse().skip(k)[m].0 + 1 == off(s, line_lo(s, p) as int) && cis(s).reverse().skip(k)[m].0 < isize::MAX by { lemma_lo_some(s, p, k, m); }
    assert forall |k: int| #![trigger cis(s).reverse().skip(k)]
            cut_ge(rev_cis(s), p, k) && no_lf(rev_cis(s).skip(k), rev_cis(s).len() - k) implies off(s, line_lo(s, p) as int) == 0 by { lemma_lo_none(s, p, k); }
}
proof fn lemma_line_hi(s: &str, p: int)
    requires bnd(s, p)
    ensures
        forall |k: int, m: int| #![trigger cis(s).skip(k)[m]]
            cut_lt(cis(s), p, k) && 0 <= m < cis(s).len() - k && no_lf(cis(s).skip(k), m) && cis(s).skip(k)[m].1 == '\n'
            ==> cis(s).skip(k)[m].0 + 1 == off(s, line_hi(s, p) as int) && cis(s).skip(k)[m].0 < isize::MAX,
        forall |k: int| #![trigger cis(s).skip(k)]
            cut_lt(cis(s), p, k) && no_lf(cis(s).skip(k), cis(s).len() - k) ==> off(s, line_hi(s, p) as int) == sb(s).len(),
        // a single remaining byte is a single remaining character
        p >= sb(s).len() - 1 ==> off(s, line_hi(s, p) as int) == sb(s).len(),
{
    assert forall |k: int, m: int| #![trigger cis(s).skip(k)[m]]
            cut_lt(cis(s), p, k) && 0 <= m < cis(s).len() - k && no_lf(cis(s).skip(k), m) && cis(s).skip(k)[m].1 == '\n'
            implies cis(s).skip(k)[m].0 + 1 == off(s, line_hi(s, p) as int) && cis(s).skip(k)[m].0 < isize::MAX by { lemma_hi_some(s, p, k, m); }
    assert forall |k: int| #![trigger cis(s).skip(k)]
            cut_lt(cis(s), p, k) && no_lf(cis(s).skip(k), cis(s).len() - k) implies off(s, line_hi(s, p) as int) == sb(s).len() by { lemma_hi_none(s, p, k); }
    if p >= sb(s).len() - 1 {
        lemma_off(s, p); lemma_valid(s);
        let c = tail(s, p);
        lemma_tail_bytes(s, p);
        lemma_len_le_blen(c);
        lemma_upto_bound(c);
        if c.len() == 0 { assert(c =~= seq![]); assert(blen(c) == 0); }
        assert(s@.take(s@.len() as int) =~= s@);
    }
}
