// pest3_meta: decoding of literals
//@path String String
//@rename chars 0 vx_chars
//@rename clone 0 vx_clone
//@rename take 1 vx_take
//@rename take_while 1 vx_take_while
//@rename collect 0 vx_collect
//@path u8::from_str_radix vx_u8_radix
//@path u32::from_str_radix vx_u32_radix
//@path char::from vx_char_from
//@path char::from_u32 vx_char_from_u32
/// TRUSTED: the characters of a string, in order; `next` takes the first, `take`/`take_while` collect a prefix
#[verifier::external_body]
pub struct CharIter<'a> { it: core::str::Chars<'a> }
impl<'a> View for CharIter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait VxChars { fn vx_chars(&self) -> CharIter<'_>; }
impl VxChars for str {
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: CharIter<'_>)
        ensures r@ == self@,
    { CharIter { it: self.chars() } }
}
impl<'a> CharIter<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { self.it.next() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: CharIter<'a>)
        ensures r@ == self@,
    { CharIter { it: self.it.clone() } }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: CharIter<'a>)
        ensures r@ == self@.take(if self@.len() < n { self@.len() as int } else { n as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take_while<F: Fn(&char) -> bool>(self, f: F) -> (r: CharIter<'a>)
        requires forall |c: char| #[trigger] call_requires(f, (&c,)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall |i: int| 0 <= i < r@.len() ==> call_ensures(f, (&#[trigger] self@[i],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: String)
        ensures r@ == self@,
    { self.it.collect() }
}
pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len();
/// TRUSTED: `from_str_radix` with radix 16: an optional `+`, then one or more hexadecimal digits, in range
pub struct NotANumber;
#[verifier::external_body]
pub fn vx_u8_radix(s: &String, radix: u32) -> (r: Result<u8, NotANumber>)
    requires radix == 16,
    ensures !(s@.len() > 0 && s@[0] == '+') ==> match r { Ok(v) => hex(s@) == Some(v as nat), Err(_) => hex(s@) is None || hex(s@)->0 > 0xff },
{ u8::from_str_radix(s, radix).map_err(|_| NotANumber) }
#[verifier::external_body]
pub fn vx_u32_radix(s: &String, radix: u32) -> (r: Result<u32, NotANumber>)
    requires radix == 16,
    ensures !(s@.len() > 0 && s@[0] == '+') ==> match r { Ok(v) => hex(s@) == Some(v as nat), Err(_) => hex(s@) is None || hex(s@)->0 > 0xffff_ffff },
{ u32::from_str_radix(s, radix).map_err(|_| NotANumber) }
/// TRUSTED: the character of a code point
pub uninterp spec fn scalar(n: nat) -> char;
pub open spec fn is_scalar(n: nat) -> bool { n <= 0x10ffff && !(0xd800 <= n <= 0xdfff) }
#[verifier::external_body]
pub broadcast proof fn axiom_scalar(n: nat)
    requires is_scalar(n),
    ensures #![trigger scalar(n)] scalar(n) as nat == n,
{ }
#[verifier::external_body]
pub fn vx_char_from(v: u8) -> (r: char)
    ensures r == scalar(v as nat),
{ char::from(v) }
#[verifier::external_body]
pub fn vx_char_from_u32(v: u32) -> (r: Option<char>)
    ensures r == (if is_scalar(v as nat) { Some(scalar(v as nat)) } else { None }),
{ char::from_u32(v) }

pub open spec fn hexval(c: char) -> Option<nat> {
    if '0' <= c <= '9' { Some((c as nat - '0' as nat) as nat) }
    else if 'a' <= c <= 'f' { Some((c as nat - 'a' as nat + 10) as nat) }
    else if 'A' <= c <= 'F' { Some((c as nat - 'A' as nat + 10) as nat) }
    else { None }
}
/// the value of a non-empty string of hexadecimal digits
pub open spec fn hex(s: Seq<char>) -> Option<nat>
    decreases s.len(),
{
    if s.len() == 0 { None } else if hexval(s.last()) is None { None }
    else if s.len() == 1 { hexval(s[0]) }
    else { match hex(s.drop_last()) { Some(h) => Some(h * 16 + hexval(s.last())->0), None => None } }
}
/// what a one-letter escape names
pub open spec fn simple(c: char) -> Option<char> {
    if c == '"' { Some('"') } else if c == '\\' { Some('\\') } else if c == '\'' { Some('\'') }
    else if c == 'r' { Some('\r') } else if c == 'n' { Some('\n') } else if c == 't' { Some('\t') }
    else if c == '0' { Some('\0') } else { None }
}
pub open spec fn upto(s: Seq<char>, c: char) -> nat
    decreases s.len(),
{ if s.len() == 0 || s[0] == c { 0 } else { 1 + upto(s.skip(1), c) } }
/// the first character that `s` denotes and how much of `s` it takes
pub open spec fn first(s: Seq<char>) -> Option<(char, nat)> {
    if s[0] != '\\' { Some((s[0], 1)) }
    else if s.len() < 2 { None }
    else if s[1] == 'x' {
        if s.len() < 4 { None } else { match hex(s.subrange(2, 4)) { Some(v) => if v <= 0x7f { Some((scalar(v), 4)) } else { None }, None => None } }
    } else if s[1] == 'u' {
        if s.len() < 3 || s[2] != '{' { None } else {
            let n = upto(s.skip(3), '}');
            if 3 + n >= s.len() || n < 1 || n > 6 { None }
            else { match hex(s.subrange(3, 3 + n as int)) { Some(v) => if is_scalar(v) { Some((scalar(v), 4 + n)) } else { None }, None => None } }
        }
    } else { match simple(s[1]) { Some(c) => Some((c, 2)), None => None } }
}
/// The text that the body of a literal denotes; None: malformed.
pub open spec fn decode(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Some(seq![]) } else {
        match first(s) {
            None => None,
            Some((c, n)) => if 0 < n <= s.len() { match decode(s.skip(n as int)) { Some(r) => Some(seq![c] + r), None => None } } else { None },
        }
    }
}
/// a sign before the digits of an escape: no grammar literal contains one
pub open spec fn signed(s: Seq<char>, i: int) -> bool {
    s[i] == '+' && (i >= 2 && s[i - 1] == 'x' && s[i - 2] == '\\' || i >= 3 && s[i - 1] == '{' && s[i - 2] == 'u' && s[i - 3] == '\\')
}
pub open spec fn unsigned(s: Seq<char>) -> bool { forall |i: int| 0 <= i < s.len() ==> !#[trigger] signed(s, i) }
pub open spec fn cat(a: Seq<char>, b: Option<Seq<char>>) -> Option<Seq<char>> { match b { Some(b) => Some(a + b), None => None } }

pub proof fn lemma_step(d: Option<Seq<char>>, c: Seq<char>, res: Seq<char>)
    requires d == cat(res, decode(c)), unsigned(c),
    ensures
        c.len() == 0 ==> d =~~= Some(res),
        c.len() > 0 && first(c) is None ==> d is None,
        c.len() > 0 ==> (first(c) matches Some((x, n)) ==> 0 < n && (n <= c.len() ==> d == cat(res.push(x), decode(c.skip(n as int))) && unsigned(c.skip(n as int)))),
{
    if c.len() == 0 { assert(res + seq![] =~= res); }
    else if let Some((x, n)) = first(c) {
        if n <= c.len() {
            assert forall |i: int| 0 <= i < c.len() - n implies !#[trigger] signed(c.skip(n as int), i) by { assert(!signed(c, i + n)); }
            if let Some(r) = decode(c.skip(n as int)) { assert(res.push(x) + r =~= res + (seq![x] + r)); }
        }
    }
}
pub proof fn lemma_start(c: Seq<char>)
    ensures decode(c) == cat(seq![], decode(c)),
{ if let Some(r) = decode(c) { assert(seq![] + r =~= r); } }
pub mod lit {
    use super::*;
    pub broadcast proof fn lemma_skips(s: Seq<char>, a: int, b: int)
        requires 0 <= a, 0 <= b, a + b <= s.len(),
        ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
    { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn lemma_upto(s: Seq<char>, c: char, k: int)
        requires 0 <= k <= s.len(), forall |i: int| 0 <= i < k ==> s[i] != c, k == s.len() || s[k] == c,
        ensures #![trigger upto(s, c), s.take(k)] upto(s, c) == k,
        decreases s.len(),
    { if k > 0 { lemma_upto(s.skip(1), c, k - 1); } }
    pub proof fn lemma_utf8(s: Seq<char>)
        ensures encode_utf8(s).len() >= s.len(), is_ascii_chars(s) <==> encode_utf8(s).len() == s.len(),
        decreases s.len(),
    {
        reveal_with_fuel(encode_utf8, 2);
        if s.len() > 0 { lemma_utf8(s.drop_first()); assert(is_ascii_chars(s) <==> is_ascii_chars(s.drop_first()) && s[0] as u32 <= 0x7f) by { 
            if is_ascii_chars(s.drop_first()) && s[0] as u32 <= 0x7f { assert forall |i: int| 0 <= i < s.len() implies #[trigger] s[i] as u32 <= 0x7f by { if i > 0 { assert(s[i] == s.drop_first()[i - 1]); } } }
            if is_ascii_chars(s) { assert forall |i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_first()[i] as u32 <= 0x7f by { assert(s[i + 1] as u32 <= 0x7f); } }
        } }
    }
    pub open spec fn is_ascii_chars(s: Seq<char>) -> bool { forall |i: int| 0 <= i < s.len() ==> #[trigger] s[i] as u32 <= 0x7f }
    pub open spec fn p16(n: nat) -> nat decreases n { if n == 0 { 1 } else { 16 * p16((n - 1) as nat) } }
    pub proof fn lemma_hex(s: Seq<char>)
        requires hex(s) is Some,
        ensures is_ascii_chars(s), hex(s)->0 < p16(s.len()),
        decreases s.len(),
    {
        if s.len() > 1 {
            lemma_hex(s.drop_last());
            assert forall |i: int| 0 <= i < s.len() implies #[trigger] s[i] as u32 <= 0x7f by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } }
        } else { assert(p16(1) == 16) by (compute); }
    }
    pub proof fn lemma_p16(n: nat)
        requires n <= 6,
        ensures n == 2 ==> p16(n) == 256, p16(n) <= 0x100_0000,
    { assert(p16(0) == 1 && p16(1) == 16 && p16(2) == 256 && p16(3) == 4096 && p16(4) == 65536 && p16(5) == 0x100000 && p16(6) == 0x1000000) by (compute); }
    /// non-ASCII text is no number
    pub broadcast proof fn lemma_len(s: Seq<char>)
        ensures #![trigger encode_utf8(s)] encode_utf8(s).len() >= s.len(), hex(s) is Some ==> encode_utf8(s).len() == s.len() && (s.len() == 2 ==> hex(s)->0 <= 0xff) && (s.len() <= 6 ==> hex(s)->0 <= 0xff_ffff),
    { lemma_utf8(s); if hex(s) is Some { lemma_hex(s); if s.len() <= 6 { lemma_p16(s.len()); } } }
}
//@free meta unescape
    ensures
        unsigned(string@) ==> (match r { Some(t) => Some(t@), None => None }) =~~= decode(string@),
//@noiso
//@start
hide(decode); hide(hex); hide(upto); hide(cat);
let ghost want = decode(string@);
let ghost ok = unsigned(string@);
proof { lemma_start(string@); }
//@loop 0
    invariant
        ok ==> unsigned(chars@) && want == cat(result@, decode(chars@)),
    decreases chars@.len(),
//@loopstart 0
broadcast use {lit::lemma_skips, lit::lemma_upto, lit::lemma_len, axiom_scalar};
let ghost c0 = chars@;
proof { if ok { lemma_step(want, c0, result@); }
    if c0.len() >= 4 { assert(c0.skip(2).take(2) =~= c0.subrange(2, 4)); assert(ok ==> !signed(c0, 2) && !signed(c0, 3)); }
    if c0.len() >= 3 { let n = upto(c0.skip(3), '}'); assert(3 + n <= c0.len() ==> c0.skip(3).take(n as int) =~= c0.subrange(3, 3 + n as int)); } }
//@loop 1
    invariant
        it1.index@ + 2 <= c0.len(), chars@ == c0.skip(2 + it1.index@),
//@loop 2
    invariant
        it2.index@ + 3 <= c0.len(), chars@ == c0.skip(3 + it2.index@),
//@end
