pub mod strs {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::range::RangeBoundsSpec;
use core::ops::{Bound, RangeFrom, RangeTo};
// ---------------------------------------------------------------- strings as UTF-8 (proved)
pub open spec fn sb(s: &str) -> Seq<u8> { s.spec_bytes() }
pub open spec fn bnd(s: &str, p: int) -> bool { 0 <= p <= sb(s).len() && is_char_boundary(sb(s), p) }
pub open spec fn tail(s: &str, p: int) -> Seq<char> { decode_utf8(sb(s).subrange(p, sb(s).len() as int)) }
pub open spec fn mid(s: &str, p: int, q: int) -> Seq<char> { decode_utf8(sb(s).subrange(p, q)) }
pub open spec fn blen(c: Seq<char>) -> nat { encode_utf8(c).len() }

pub proof fn lemma_valid(s: &str) ensures valid_utf8(sb(s)), sb(s) == encode_utf8(s@), decode_utf8(sb(s)) == s@, bnd(s,0), bnd(s, sb(s).len() as int)
{ encode_utf8_valid_utf8(s@); encode_utf8_decode_utf8(s@); lemma_bnd_end(sb(s)); }
pub proof fn lemma_bnd_end(b: Seq<u8>) requires valid_utf8(b) ensures is_char_boundary(b, b.len() as int) decreases b.len() { if b.len() > 0 { lemma_bnd_end(pop_first_scalar(b)); } }

pub proof fn lemma_tail_bytes(s: &str, p: int)
  requires bnd(s,p)
  ensures valid_utf8(sb(s).subrange(p, sb(s).len() as int)), 
    encode_utf8(tail(s,p)) == sb(s).subrange(p, sb(s).len() as int),
    valid_utf8(sb(s).subrange(0, p)),
    s@ == mid(s,0,p) + tail(s,p)
{ lemma_valid(s);
  valid_utf8_split(sb(s), p); decode_utf8_split(sb(s), p);
  decode_utf8_encode_utf8(sb(s).subrange(p, sb(s).len() as int));
}
// a boundary of a tail is a boundary of the whole
pub proof fn lemma_bnd_shift(b: Seq<u8>, p: int, k: int)
  requires valid_utf8(b), 0 <= p <= b.len(), is_char_boundary(b,p), 0 <= k <= b.len() - p
  ensures is_char_boundary(b.subrange(p, b.len() as int), k) == is_char_boundary(b, p + k)
{
  let t = b.subrange(p, b.len() as int);
  valid_utf8_split(b, p);
  if k < t.len() {
    assert(t[k] == b[p+k]);
    is_char_boundary_iff_is_leading_byte(t, k);
    is_char_boundary_iff_is_leading_byte(b, p+k);
  } else { lemma_bnd_end(b); lemma_bnd_end(t); }
}
pub proof fn lemma_encode_bnd(a: Seq<char>, b: Seq<char>)
  ensures is_char_boundary(encode_utf8(a+b), blen(a) as int),
      encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b),
      encode_utf8(a+b).subrange(0, blen(a) as int) =~= encode_utf8(a),
      encode_utf8(a+b).subrange(blen(a) as int, blen(a+b) as int) =~= encode_utf8(b),
{
  encode_utf8_concat(a, b);
  encode_utf8_valid_utf8(a+b);
  encode_utf8_valid_utf8(b);
  let w = encode_utf8(a+b);
  if blen(b) > 0 {
    is_char_boundary_iff_is_leading_byte(w, blen(a) as int);
    is_char_boundary_iff_is_leading_byte(encode_utf8(b), 0);
    assert(w[blen(a) as int] == encode_utf8(b)[0]);
  } else { lemma_bnd_end(w); assert(encode_utf8(b).len()==0); }
}
/// advancing over a char prefix of the tail
pub proof fn lemma_advance(s: &str, p: int, pre: Seq<char>)
  requires bnd(s,p), pre.is_prefix_of(tail(s,p))
  ensures bnd(s, p + blen(pre)), tail(s, p + blen(pre)) == tail(s,p).skip(pre.len() as int),
     mid(s, p, p+blen(pre)) == pre,
     sb(s).subrange(p, p + blen(pre)) == encode_utf8(pre),
{
  lemma_tail_bytes(s,p); lemma_valid(s);
  let t = tail(s,p);
  let post = t.skip(pre.len() as int);
  assert(t =~= pre + post);
  lemma_encode_bnd(pre, post);
  lemma_bnd_shift(sb(s), p, blen(pre) as int);
  let tb = sb(s).subrange(p, sb(s).len() as int);
  assert(sb(s).subrange(p + blen(pre), sb(s).len() as int) =~= encode_utf8(post)) by {
    assert(tb.subrange(blen(pre) as int, tb.len() as int) =~= encode_utf8(post));
    assert(sb(s).subrange(p + blen(pre), sb(s).len() as int) =~= tb.subrange(blen(pre) as int, tb.len() as int));
  }
  encode_utf8_decode_utf8(post);
  assert(sb(s).subrange(p, p+blen(pre)) =~= tb.subrange(0, blen(pre) as int));
  encode_utf8_decode_utf8(pre);
}
/// bytes match iff chars match
pub proof fn lemma_match_bytes(s: &str, p: int, t: Seq<char>)
  requires bnd(s,p)
  ensures (p + blen(t) <= sb(s).len() && sb(s).subrange(p, p + blen(t)) == encode_utf8(t)) <==> t.is_prefix_of(tail(s,p))
{
  if t.is_prefix_of(tail(s,p)) { lemma_advance(s,p,t); }
  if p + blen(t) <= sb(s).len() && sb(s).subrange(p, p + blen(t)) == encode_utf8(t) {
    lemma_tail_bytes(s,p); lemma_valid(s);
    let tb = sb(s).subrange(p, sb(s).len() as int);
    encode_utf8_valid_utf8(t);
    let r = tb.subrange(blen(t) as int, tb.len() as int);
    assert(tb =~= encode_utf8(t) + r) by { assert(tb.subrange(0, blen(t) as int) =~= sb(s).subrange(p, p + blen(t))); }
    assert(is_char_boundary(tb, blen(t) as int)) by { lemma_cut(t, r, tb); }
    valid_utf8_split(tb, blen(t) as int);
    decode_utf8_split(tb, blen(t) as int);
    assert(tb.subrange(0, blen(t) as int) =~= encode_utf8(t));
    encode_utf8_decode_utf8(t);
  }
}
pub proof fn lemma_cut(t: Seq<char>, r: Seq<u8>, tb: Seq<u8>)
  requires tb == encode_utf8(t) + r, valid_utf8(tb)
  ensures is_char_boundary(tb, blen(t) as int)
  decreases t.len()
{
  if t.len() > 0 {
    encode_utf8_first_scalar(t);
    let e = encode_utf8(t);
    assert(e =~= encode_scalar(t[0] as u32) + encode_utf8(t.drop_first())); 
    encode_utf8_valid_utf8(t);
    let n = length_of_first_scalar(tb);
    assert(tb[0] == e[0]);
    assert(n == length_of_first_scalar(e));
    assert(pop_first_scalar(tb) =~= encode_utf8(t.drop_first()) + r);
    lemma_cut(t.drop_first(), r, pop_first_scalar(tb));
    assert(is_char_boundary(tb, blen(t) as int));
  } else { assert(encode_utf8(t).len() == 0); }
}

pub proof fn lemma_bnd_iff_sub(s: &str, p: int, q: int)
  requires bnd(s, p), bnd(s, q), p <= q
  ensures valid_utf8(sb(s).subrange(p, q)), encode_utf8(mid(s, p, q)) == sb(s).subrange(p, q),
     tail(s, p) == mid(s, p, q) + tail(s, q)
{
  lemma_valid(s); lemma_tail_bytes(s, p);
  let tb = sb(s).subrange(p, sb(s).len() as int);
  lemma_bnd_shift(sb(s), p, q - p);
  valid_utf8_split(tb, q - p); decode_utf8_split(tb, q - p);
  assert(tb.subrange(0, q - p) =~= sb(s).subrange(p, q));
  assert(tb.subrange(q - p, tb.len() as int) =~= sb(s).subrange(q, sb(s).len() as int));
  decode_utf8_encode_utf8(sb(s).subrange(p, q));
}

// TRUSTED: Rust guarantees that no allocation exceeds isize::MAX bytes.
#[verifier::external_body]
pub proof fn axiom_str_len(s: &str) ensures sb(s).len() <= isize::MAX {}
#[verifier::external_body]
pub broadcast proof fn axiom_slice_len<T>(s: &[T]) ensures #[trigger] s@.len() <= usize::MAX {}

pub broadcast proof fn lemma_str(s: &str)
  ensures #![trigger s.spec_bytes()]
    s.spec_bytes().len() <= isize::MAX, valid_utf8(s.spec_bytes()), s.spec_bytes() == encode_utf8(s@),
    decode_utf8(s.spec_bytes()) == s@,
    is_char_boundary(s.spec_bytes(), 0), is_char_boundary(s.spec_bytes(), s.spec_bytes().len() as int),
{ axiom_str_len(s); lemma_valid(s); }

pub broadcast proof fn lemma_char_len(c: char)
  ensures #![trigger encode_scalar(c as u32)] encode_scalar(c as u32) == encode_utf8(seq![c]), 1 <= encode_scalar(c as u32).len() <= 4
{
  encode_utf8_first_scalar(seq![c]);
  assert(seq![c].drop_first() =~= seq![]);
  reveal_with_fuel(encode_utf8, 3);
  assert(encode_utf8(seq![c]) =~= encode_scalar(c as u32));
}
/// the text of a slice that starts at the cursor
pub broadcast proof fn lemma_tail_str(s: &str, t: &str, p: int)
    requires bnd(s, p), #[trigger] t.spec_bytes() == #[trigger] s.spec_bytes().subrange(p, s.spec_bytes().len() as int),
    ensures t@ == tail(s, p),
{ lemma_valid(t); }
pub broadcast proof fn lemma_rf(r: RangeFrom<usize>) ensures #![trigger r.spec_end_bound()] r.spec_end_bound() == Bound::<&usize>::Unbounded, r.spec_start_bound() == Bound::<&usize>::Included(&r.start) {}
pub broadcast proof fn lemma_rt(r: RangeTo<usize>) ensures #![trigger r.spec_end_bound()] r.spec_end_bound() == Bound::<&usize>::Excluded(&r.end), r.spec_start_bound() == Bound::<&usize>::Unbounded {}
} // mod strs
pub use strs::*;
