// ---------------------------------------------------------------- TRUSTED: std wrappers on str / slices
broadcast use {lemma_str, lemma_char_len, lemma_tail_str, lemma_rf, lemma_rt, rules::axiom_rule_eq, rules::axiom_rule_obeys, seqs::lemma_push_drop};

pub trait VxGet<I> {
    type Out: ?Sized;
    spec fn get_post(&self, i: I, r: Option<&Self::Out>) -> bool;
    /// `x.get(i)`
    fn vx_get(&self, i: I) -> (r: Option<&Self::Out>)
        ensures self.get_post(i, r);
    /// `&x[i]`: panics exactly where `get` gives None
    fn vx_index(&self, i: I) -> (r: &Self::Out)
        requires !self.get_post(i, None),
        ensures self.get_post(i, Some(r));
}
pub open spec fn str_get_post(s: &str, a: int, b: int, r: Option<&str>) -> bool {
    &&& r is Some <==> (a <= b && bnd(s, a) && bnd(s, b))
    &&& r is Some ==> sb(r->0) == sb(s).subrange(a, b) && r->0@ == mid(s, a, b)
}
impl VxGet<Range<usize>> for str {
    type Out = str;
    open spec fn get_post(&self, i: Range<usize>, r: Option<&str>) -> bool { str_get_post(self, i.start as int, i.end as int, r) }
    #[verifier::external_body]
    fn vx_get(&self, i: Range<usize>) -> (r: Option<&str>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: Range<usize>) -> (r: &str) { &self[i] }
}
impl VxGet<RangeInclusive<usize>> for str {
    type Out = str;
    open spec fn get_post(&self, i: RangeInclusive<usize>, r: Option<&str>) -> bool { str_get_post(self, i@.start as int, i@.end + 1, r) }
    #[verifier::external_body]
    fn vx_get(&self, i: RangeInclusive<usize>) -> (r: Option<&str>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: RangeInclusive<usize>) -> (r: &str) { &self[i] }
}
impl VxGet<RangeFrom<usize>> for str {
    type Out = str;
    open spec fn get_post(&self, i: RangeFrom<usize>, r: Option<&str>) -> bool { str_get_post(self, i.start as int, sb(self).len() as int, r) }
    #[verifier::external_body]
    fn vx_get(&self, i: RangeFrom<usize>) -> (r: Option<&str>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: RangeFrom<usize>) -> (r: &str) { &self[i] }
}
impl VxGet<RangeTo<usize>> for str {
    type Out = str;
    open spec fn get_post(&self, i: RangeTo<usize>, r: Option<&str>) -> bool { str_get_post(self, 0, i.end as int, r) }
    #[verifier::external_body]
    fn vx_get(&self, i: RangeTo<usize>) -> (r: Option<&str>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: RangeTo<usize>) -> (r: &str) { &self[i] }
}
impl<T> VxGet<Range<usize>> for [T] {
    type Out = [T];
    open spec fn get_post(&self, i: Range<usize>, r: Option<&[T]>) -> bool {
        &&& r is Some <==> i.start <= i.end <= self@.len()
        &&& r is Some ==> r->0@ == self@.subrange(i.start as int, i.end as int)
    }
    #[verifier::external_body]
    fn vx_get(&self, i: Range<usize>) -> (r: Option<&[T]>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: Range<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> VxGet<RangeInclusive<usize>> for [T] {
    type Out = [T];
    open spec fn get_post(&self, i: RangeInclusive<usize>, r: Option<&[T]>) -> bool {
        &&& r is Some <==> i@.start <= i@.end + 1 && i@.end < self@.len()
        &&& r is Some ==> r->0@ == self@.subrange(i@.start as int, i@.end + 1)
    }
    #[verifier::external_body]
    fn vx_get(&self, i: RangeInclusive<usize>) -> (r: Option<&[T]>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: RangeInclusive<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> VxGet<RangeFrom<usize>> for [T] {
    type Out = [T];
    open spec fn get_post(&self, i: RangeFrom<usize>, r: Option<&[T]>) -> bool {
        &&& r is Some <==> i.start <= self@.len()
        &&& r is Some ==> r->0@ == self@.subrange(i.start as int, self@.len() as int)
    }
    #[verifier::external_body]
    fn vx_get(&self, i: RangeFrom<usize>) -> (r: Option<&[T]>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: RangeFrom<usize>) -> (r: &[T]) { &self[i] }
}
impl<T> VxGet<usize> for [T] {
    type Out = T;
    open spec fn get_post(&self, i: usize, r: Option<&T>) -> bool {
        &&& r is Some <==> i < self@.len()
        &&& r is Some ==> r->0 == self@[i as int]
    }
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> (r: Option<&T>) { self.get(i) }
    #[verifier::external_body]
    fn vx_index(&self, i: usize) -> (r: &T) { &self[i] }
}
/// ASCII lower case, as `char::to_ascii_lowercase`.
pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn eq_ci(a: Seq<char>, b: Seq<char>) -> bool {
    a.len() == b.len() && forall |i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i])
}
/// `char_indices`: byte offset and value of each character
pub open spec fn cis(s: &str) -> Seq<(usize, char)> { Seq::new(s@.len(), |i: int| (blen(s@.take(i)) as usize, s@[i])) }
pub trait VxStr {
    fn vx_starts_with(&self, p: &str) -> bool;
    fn vx_is_char_boundary(&self, p: usize) -> bool;
    fn vx_eq_ignore_ascii_case(&self, p: &str) -> bool;
    fn vx_strip_prefix(&self, p: &str) -> Option<&str>;
    fn vx_char_indices(&self) -> VIter<(usize, char)>;
    fn vx_peekable_dummy(&self);
}
impl VxStr for str {
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(self@) { self.starts_with(p) }
    #[verifier::external_body]
    fn vx_is_char_boundary(&self, p: usize) -> (r: bool) ensures r == bnd(self, p as int) { self.is_char_boundary(p) }
    #[verifier::external_body]
    fn vx_eq_ignore_ascii_case(&self, p: &str) -> (r: bool) ensures r == eq_ci(self@, p@) { self.eq_ignore_ascii_case(p) }
    #[verifier::external_body]
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&str>)
        ensures r is Some <==> p@.is_prefix_of(self@), r is Some ==> self@ == p@ + r->0@
    { self.strip_prefix(p) }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: VIter<(usize, char)>)
        ensures r@ == cis(self)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_peekable_dummy(&self) {}
}
/// Stands for the iterator adaptors of the standard library over a finite sequence of items.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VIter<T> { v: Vec<T> }
impl<T> VIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VIter<T>)
        ensures r@ == self@.reverse(),
    { unimplemented!() }
    /// `k` leading items satisfy the predicate and are dropped; the next one (if any) does not.
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall |x: &T| f.requires((x,)),
        ensures exists |k: int| 0 <= k <= self@.len() && r@ == #[trigger] self@.skip(k)
            && (forall |i: int| 0 <= i < k ==> f.ensures((&#[trigger] self@[i],), true))
            && (k < self@.len() ==> f.ensures((&self@[k],), false)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall |x: &T| f.requires((x,)),
        ensures
            r is None ==> forall |i: int| 0 <= i < old(self)@.len() ==> f.ensures((&#[trigger] old(self)@[i],), false),
            r is Some ==> exists |k: int| 0 <= k < old(self)@.len() && r == Some(#[trigger] old(self)@[k])
                && final(self)@ == old(self)@.skip(k + 1)
                && (forall |i: int| 0 <= i < k ==> f.ensures((&#[trigger] old(self)@[i],), false))
                && f.ensures((&old(self)@[k],), true),
    { unimplemented!() }
}
/// `==` on byte slices compares contents (TRUSTED: std).
pub broadcast proof fn axiom_u8_slice_eq(a: &[u8], b: &[u8])
    ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@)
{ admit(); }
pub broadcast proof fn axiom_u8_slice_obeys()
    ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec()
{ admit(); }

// ---------------------------------------------------------------- Position
//@item core Position
impl<'i> Position<'i> {
    pub open spec fn wf(self) -> bool { bnd(self.input, self.pos as int) }
    /// the text after the cursor
    pub open spec fn rest(self) -> Seq<char> { tail(self.input, self.pos as int) }
    pub open spec fn len(self) -> int { sb(self.input).len() as int }
    /// `p` is this cursor advanced over exactly the characters `t`, which are the next ones.
    pub open spec fn adv(self, t: Seq<char>) -> Position<'i> { Position { input: self.input, pos: (self.pos + blen(t)) as usize } }
}
impl<'i> Clone for Position<'i> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<'i> Copy for Position<'i> {}

pub proof fn lemma_adv<'i>(p: Position<'i>, t: Seq<char>)
    requires p.wf(), t.is_prefix_of(p.rest())
    ensures p.adv(t).wf(), p.adv(t).pos == p.pos + blen(t), p.adv(t).rest() == p.rest().skip(t.len() as int),
        p.pos + blen(t) <= p.len(), mid(p.input, p.pos as int, p.pos + blen(t)) == t,
{ lemma_advance(p.input, p.pos as int, t); }

pub proof fn lemma_rest_empty<'i>(p: Position<'i>)
    requires p.wf()
    ensures (p.rest().len() == 0) <==> (p.pos == p.len()), blen(p.rest()) == p.len() - p.pos,
{
    lemma_tail_bytes(p.input, p.pos as int);
    if p.rest().len() == 0 { assert(p.rest() =~= seq![]); assert(encode_utf8(p.rest()).len() == 0); }
    else { encode_utf8_first_scalar(p.rest()); encode_utf8_decode_utf8(p.rest()); }
    if p.pos == p.len() { assert(sb(p.input).subrange(p.pos as int, p.len()) =~= seq![]); encode_utf8_decode_utf8(p.rest()); }
}
/// the first character after the cursor
pub proof fn lemma_first<'i>(p: Position<'i>)
    requires p.wf(), p.rest().len() > 0
    ensures ({ let c = p.rest()[0]; let t = seq![c];
        &&& t.is_prefix_of(p.rest()) &&& p.rest().take(1) == t &&& blen(t) == encode_scalar(c as u32).len()
        &&& p.adv(t).wf() &&& p.adv(t).pos == p.pos + encode_scalar(c as u32).len() &&& p.adv(t).rest() == p.rest().skip(1) }),
{ 
    let t = seq![p.rest()[0]];
    assert(t.is_prefix_of(p.rest())); assert(p.rest().take(1) =~= t);
    lemma_adv(p, t);
}
pub proof fn lemma_take_snoc(t: Seq<char>, n: int)
    requires 0 <= n < t.len()
    ensures t.take(n + 1) == t.take(n) + seq![t[n]], blen(t.take(n + 1)) == blen(t.take(n)) + encode_scalar(t[n] as u32).len(),
{
    assert(t.take(n + 1) =~= t.take(n) + seq![t[n]]);
    lemma_encode_bnd(t.take(n), seq![t[n]]);
    lemma_char_len(t[n]);
}
pub proof fn lemma_blen_mono(t: Seq<char>, n: int)
    requires 0 <= n <= t.len()
    ensures blen(t.take(n)) <= blen(t), blen(t.take(n)) + blen(t.skip(n)) == blen(t)
{ assert(t =~= t.take(n) + t.skip(n)); lemma_encode_bnd(t.take(n), t.skip(n)); }
proof fn lemma_ci_char(a: char, b: char)
    requires lower(a) == lower(b)
    ensures encode_scalar(a as u32).len() == encode_scalar(b as u32).len()
{
    assert(('A' <= a && a <= 'Z') ==> ((a as u32 + 32) as u8) as char as u32 == a as u32 + 32);
    assert(('A' <= b && b <= 'Z') ==> ((b as u32 + 32) as u8) as char as u32 == b as u32 + 32);
    if a != b { assert(a as u32 <= 0x7f && b as u32 <= 0x7f); }
}
pub proof fn lemma_ci_len(a: Seq<char>, b: Seq<char>)
    requires eq_ci(a, b)
    ensures blen(a) == blen(b)
    decreases a.len()
{
    if a.len() > 0 {
        let n = a.len() - 1;
        lemma_take_snoc(a, n); lemma_take_snoc(b, n);
        assert(a.take(n + 1) =~= a); assert(b.take(n + 1) =~= b);
        assert(eq_ci(a.take(n), b.take(n))) by { assert forall |i: int| 0 <= i < n implies lower(#[trigger] a.take(n)[i]) == lower(b.take(n)[i]) by { assert(lower(a[i]) == lower(b[i])); } }
        lemma_ci_len(a.take(n), b.take(n));
        lemma_ci_char(a[n], b[n]);
    } else { assert(a =~= seq![]); assert(b =~= seq![]); }
}
/// matching the next bytes case-insensitively = matching the next characters case-insensitively
pub proof fn lemma_match_ci<'i>(p: Position<'i>, t: Seq<char>)
    requires p.wf()
    ensures ({
        let q = p.pos + blen(t);
        (bnd(p.input, q) && eq_ci(mid(p.input, p.pos as int, q), t)) <==> (t.len() <= p.rest().len() && eq_ci(p.rest().take(t.len() as int), t)) }),
        t.len() <= p.rest().len() && eq_ci(p.rest().take(t.len() as int), t) ==> p.adv(p.rest().take(t.len() as int)).pos == p.pos + blen(t) && p.adv(p.rest().take(t.len() as int)).wf(),
{
    let q = p.pos + blen(t);
    if bnd(p.input, q) && eq_ci(mid(p.input, p.pos as int, q), t) {
        let m = mid(p.input, p.pos as int, q);
        lemma_bnd_iff_sub(p.input, p.pos as int, q);
        assert(p.rest().take(t.len() as int) =~= m);
    }
    if t.len() <= p.rest().len() && eq_ci(p.rest().take(t.len() as int), t) {
        let m = p.rest().take(t.len() as int);
        lemma_ci_len(m, t);
        assert(m.is_prefix_of(p.rest()));
        lemma_adv(p, m);
    }
}
proof fn lemma_sub_bnd(s: &str, p: int, q: int)
    requires bnd(s, p), p <= q <= sb(s).len()
    ensures is_char_boundary(sb(s).subrange(p, sb(s).len() as int), q - p) == bnd(s, q),
       sb(s).subrange(p, sb(s).len() as int).subrange(0, q - p) == sb(s).subrange(p, q)
{
    lemma_bnd_shift(sb(s), p, q - p);
    assert(sb(s).subrange(p, sb(s).len() as int).subrange(0, q - p) =~= sb(s).subrange(p, q));
}
//@open core impl Position
//@fn new_unchecked
    requires bnd(input, pos as int),
    ensures r.input == input, r.pos == pos, r.wf(),
//@fn new
    ensures r is Some <==> bnd(input, pos as int), r is Some ==> r->0.input == input && r->0.pos == pos && r->0.wf(),
//@fn from_start
    ensures r.input == input, r.pos == 0, r.wf(),
//@fn pos
    ensures r == self.pos,
//@fn at_start
    ensures r == (self.pos == 0),
//@fn at_end
    requires self.wf(),
    ensures r == (self.rest().len() == 0), r == (self.pos == self.len()),
//@start
    proof { lemma_rest_empty(*self); }
//@fn skip
    requires old(self).wf(),
    ensures final(self).wf(), r == (n <= old(self).rest().len()),
        *final(self) == (if r { old(self).adv(old(self).rest().take(n as int)) } else { *old(self) }),
//@start
    let ghost rest = self.rest();
    proof { lemma_rest_empty(*self); if n <= rest.len() { lemma_adv(*self, rest.take(n as int)); lemma_blen_mono(rest, n as int); } }
//@loop 0
    invariant
        it0.index@ <= rest.len(), rest == old(self).rest(), old(self).wf(), *self == *old(self),
        vstd::std_specs::iter::IteratorSpec::remaining(&chars) == rest.skip(it0.index@ as int),
        len == blen(rest.take(it0.index@ as int)),
        blen(rest) <= isize::MAX,
//@loopstart 0
    proof { if it0.index@ < rest.len() { lemma_take_snoc(rest, it0.index@ as int); lemma_blen_mono(rest, it0.index@ + 1); } }
//@fn match_string
    requires old(self).wf(),
    ensures final(self).wf(), r == string@.is_prefix_of(old(self).rest()),
        *final(self) == (if r { old(self).adv(string@) } else { *old(self) }),
//@start
    broadcast use {axiom_u8_slice_eq, axiom_u8_slice_obeys};
    proof {
        lemma_match_bytes(self.input, self.pos as int, string@);
        if string@.is_prefix_of(self.rest()) { lemma_adv(*self, string@); }
    }
//@fn match_insensitive
    requires old(self).wf(),
    ensures final(self).wf(),
        r == (string@.len() <= old(self).rest().len() && eq_ci(old(self).rest().take(string@.len() as int), string@)),
        *final(self) == (if r { old(self).adv(old(self).rest().take(string@.len() as int)) } else { *old(self) }),
//@start
    proof {
        lemma_match_ci(*self, string@);
        let q = self.pos + blen(string@);
        if q <= self.len() { lemma_sub_bnd(self.input, self.pos as int, q); }
    }
//@fn match_range
    requires old(self).wf(),
    ensures final(self).wf(),
        r == (old(self).rest().len() > 0 && range.start <= old(self).rest()[0] <= range.end),
        *final(self) == (if r { old(self).adv(old(self).rest().take(1)) } else { *old(self) }),
//@start
    proof { if self.rest().len() > 0 { lemma_first(*self); } }
//@fn match_char_by
    requires old(self).wf(), old(self).rest().len() > 0 ==> f.requires((old(self).rest()[0],)),
    ensures final(self).wf(),
        r ==> old(self).rest().len() > 0 && f.ensures((old(self).rest()[0],), true),
        !r ==> old(self).rest().len() == 0 || f.ensures((old(self).rest()[0],), false),
        *final(self) == (if r { old(self).adv(old(self).rest().take(1)) } else { *old(self) }),
//@start
    proof { if self.rest().len() > 0 { lemma_first(*self); } }
//@fn match_char
    requires self.wf(),
    ensures r == (self.rest().len() > 0 && self.rest()[0] == c),
//@fn next_char
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).rest().len() == 0 ==> r is None && *final(self) == *old(self),
        old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && *final(self) == old(self).adv(old(self).rest().take(1)),
//@start
    proof { if self.rest().len() > 0 { lemma_first(*self); } }
//@close
