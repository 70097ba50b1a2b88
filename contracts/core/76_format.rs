// pest3_core::formatter: what is printed for a position or a span
//@path String String
//@path fmt::Write VxOut
//@path Write VxOut
//@path fmt::Result FmtRes
//@path FnMut VxFmt<Writer>
//@path UnicodeWidthStr::width_cjk vx_width_cjk
//@rename format_args 1 VxText
//@rename repeat 1 vx_repeat
//@rename collect 0 vx_collected
//@rename split_at 1 vx_split_at
//@rename enumerate 0 vx_enumerate
//@rename as_deref 0 vx_as_deref
//@rename first 0 vx_first
//@rename last 0 vx_last
//@rename ends_with 1 vx_ends
/// What a writer has been given: characters written directly, and texts handed to the formatter `0`.
pub ghost enum Ev { Ch(char), Fmt(int, Seq<char>) }
pub struct FmtError;
pub type FmtRes = Result<(), FmtError>;
pub mod fmtl {
use super::*;
/// after writing `t`
pub closed spec fn wr(o: Seq<Ev>, t: Seq<char>) -> Seq<Ev> { o + t.map_values(|c: char| Ev::Ch(c)) }
/// after handing `t` to formatter `id`
pub closed spec fn fm(o: Seq<Ev>, id: int, t: Seq<char>) -> Seq<Ev> { o.push(Ev::Fmt(id, t)) }
pub broadcast proof fn lemma_wr_add(o: Seq<Ev>, a: Seq<char>, b: Seq<char>)
    ensures #[trigger] wr(o, a + b) == wr(wr(o, a), b),
{ assert(wr(o, a + b) =~= wr(wr(o, a), b)); }
pub broadcast proof fn lemma_wr_nil(o: Seq<Ev>)
    ensures #[trigger] wr(o, Seq::<char>::empty()) == o,
{ assert(wr(o, Seq::<char>::empty()) =~= o); }
pub broadcast proof fn lemma_copies(n: nat)
    ensures #[trigger] copies(seq![' '], n) == blanks(n),
    decreases n
{ if n > 0 { lemma_copies((n - 1) as nat); } assert(copies(seq![' '], n) =~= blanks(n)); }
pub broadcast group fmt_lemmas { lemma_wr_add, lemma_wr_nil, lemma_copies }
/// the events appended say what was written
pub proof fn lemma_meaning(o: Seq<Ev>, t: Seq<char>, id: int)
    ensures wr(o, t).len() == o.len() + t.len(), wr(o, t).take(o.len() as int) == o, forall |i: int| 0 <= i < t.len() ==> #[trigger] wr(o, t)[o.len() + i] == Ev::Ch(t[i]),
        fm(o, id, t) == o.push(Ev::Fmt(id, t)),
{ assert(wr(o, t).take(o.len() as int) =~= o); }
}
pub use fmtl::{wr, fm};
/// TRUSTED: a writer keeps what it is given, in order
pub trait VxOut: Sized {
    spec fn out(&self) -> Seq<Ev>;
    /// writing to it never fails
    spec fn sound(&self) -> bool;
    fn vx_write(&mut self, t: VxText) -> (r: FmtRes)
        ensures r is Ok ==> final(self).out() == wr(old(self).out(), t@), old(self).sound() ==> r is Ok && final(self).sound();
    fn vx_write_str(&mut self, t: &str) -> (r: FmtRes)
        ensures r is Ok ==> final(self).out() == wr(old(self).out(), t@), old(self).sound() ==> r is Ok && final(self).sound();
    fn vx_write_char(&mut self, c: char) -> (r: FmtRes)
        ensures r is Ok ==> final(self).out() == wr(old(self).out(), seq![c]), old(self).sound() ==> r is Ok && final(self).sound();
}
//@rename write_str 1 vx_write_str
//@rename write_char 1 vx_write_char
pub trait VxTxt { spec fn txt(&self) -> Seq<char>; }
impl VxTxt for str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxTxt for String { open spec fn txt(&self) -> Seq<char> { self@ } }
/// TRUSTED: a formatter (a closure given by the caller) writes its rendering of the text it is given
pub trait VxFmt<W> {
    spec fn fid(&self) -> int;
    spec fn total(&self) -> bool;
    fn vx_call<T: VxTxt + ?Sized>(&mut self, t: &T, f: &mut W) -> (r: FmtRes) where W: VxOut
        ensures final(self).fid() == old(self).fid(), final(self).total() == old(self).total(),
            r is Ok ==> final(f).out() == fm(old(f).out(), old(self).fid(), t.txt()),
            old(self).total() && old(f).sound() ==> r is Ok && final(f).sound();
}
/// decimal numerals
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn digit(n: nat) -> char { ((48 + n) as u8) as char }
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn copies(t: Seq<char>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { seq![] } else { copies(t, (n - 1) as nat) + t } }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (*self).shown() } }
/// numbers, which are padded on the left
pub trait VxNumber: VxShow { }
impl VxNumber for usize { }
impl<T: VxNumber> VxNumber for &T { }
pub open spec fn padded(t: Seq<char>, w: int) -> Seq<char> { if t.len() < w { blanks((w - t.len()) as nat) + t } else { t } }
/// the text of a `format_args!`
#[verifier::external_body]
pub struct VxText { s: String }
impl View for VxText { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// TRUSTED: formatting of text and numbers
impl VxText {
    #[verifier::external_body]
    pub fn new() -> (r: VxText) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_lit(self, s: &str) -> (r: VxText) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_arg<T: VxShow + ?Sized>(self, x: &T) -> (r: VxText) ensures r@ == self@ + x.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pad<T: VxNumber>(self, x: &T, w: usize) -> (r: VxText) ensures r@ == self@ + padded(x.shown(), w as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VxPat { spec fn ends(&self, t: Seq<char>) -> bool; }
impl VxPat for char { open spec fn ends(&self, t: Seq<char>) -> bool { t.len() > 0 && t.last() == *self } }
impl VxPat for &str { open spec fn ends(&self, t: Seq<char>) -> bool { self@.is_suffix_of(t) } }
pub trait VxStrFns {
    spec fn cs(&self) -> Seq<char>;
    fn vx_repeat(&self, n: usize) -> (r: String)
        ensures r@ == copies(self.cs(), n as nat);
    fn vx_ends<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == p.ends(self.cs());
}
/// TRUSTED: std
impl VxStrFns for str {
    open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
    #[verifier::external_body]
    fn vx_ends<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
pub trait VxSplitAt {
    spec fn v(&self) -> &str;
    fn vx_split_at<'a>(&'a self, k: usize) -> (r: (&'a str, &'a str))
        requires bnd(self.v(), k as int),
        ensures r.0@ == mid(self.v(), 0, k as int), r.1@ == tail(self.v(), k as int), sb(r.0) == sb(self.v()).subrange(0, k as int), sb(r.1) == sb(self.v()).subrange(k as int, sb(self.v()).len() as int);
}
impl VxSplitAt for str {
    open spec fn v(&self) -> &str { self }
    #[verifier::external_body]
    fn vx_split_at<'a>(&'a self, k: usize) -> (r: (&'a str, &'a str)) { self.split_at(k) }
}
/// TRUSTED: columns a text takes (crate unicode-width)
pub uninterp spec fn width(t: Seq<char>) -> usize;
#[verifier::external_body]
pub fn vx_width_cjk(t: &str) -> (r: usize) ensures r == width(t@) { unimplemented!() }
/// the picture of a white space or control character
pub open spec fn pic(c: char) -> char {
    if c == ' ' { ' ' } else if (c as u32) < 32 { (0x2400 + c as u32) as char } else if c == '\x7f' { '\u{2421}' } else { c }
}
pub open spec fn vis(t: Seq<char>) -> Seq<char> { t.map_values(|c: char| pic(c)) }
#[verifier::external_body]
fn vx_collected(v: Vec<char>) -> (r: String) ensures r@ == v@ { v.into_iter().collect() }

//@item core FormatOption
//@item core Partition
//@item core Partition2
//@item core Pos
//@free core visualize_ws_and_cntrl
    ensures r@ == vis(line@),
//@loop 0
    invariant vx_out0@ == vis(line@.take(it0.index@)),
//@loopend 0
    proof { }
//@end

impl<'i> Partition<'i> {
    /// the line `t`, cut after `k` characters
    pub open spec fn cut(self, line: int, t: Seq<char>, k: int) -> bool {
        0 <= k <= t.len() && self.line == line && self.former@ == vis(t.take(k)) && self.latter@ == vis(t.skip(k))
    }
}
impl<'i> Partition2<'i> {
    pub open spec fn cut(self, line: int, t: Seq<char>, j: int, k: int) -> bool {
        0 <= j <= k <= t.len() && self.line == line && self.former@ == vis(t.take(j)) && self.middle@ == vis(t.subrange(j, k)) && self.latter@ == vis(t.skip(k))
    }
}
//@open core impl Partition
//@fn new
    requires bnd(s, col as int),
    ensures r.cut(line as int, s@, chars_before(s, col as int) as int),
//@start
    proof { lemma_off(s, col as int); }
//@close
//@open core impl Partition2
//@fn new
    requires bnd(s, col_start as int), bnd(s, col_end as int), col_start <= col_end,
    ensures r.cut(line as int, s@, chars_before(s, col_start as int) as int, chars_before(s, col_end as int) as int),
//@start
    proof { lemma_off(s, col_start as int); lemma_off(s, col_end as int); lemma_cut2(s, col_start as int, col_end as int); }
//@close
/// cutting a prefix
proof fn lemma_cut2(s: &str, a: int, b: int)
    requires bnd(s, a), bnd(s, b), a <= b
    ensures
        chars_before(s, a) <= chars_before(s, b),
        forall |t: &str| #![trigger t.spec_bytes()] t.spec_bytes() == sb(s).subrange(0, b) ==> bnd(t, a) && mid(t, 0, a) == s@.take(chars_before(s, a) as int)
            && tail(t, a) == s@.subrange(chars_before(s, a) as int, chars_before(s, b) as int),
{
    lemma_sub(s, 0, b); lemma_off(s, a); lemma_off(s, b); lemma_mid_chars(s, chars_before(s, a) as int, chars_before(s, b) as int);
    if chars_before(s, b) < chars_before(s, a) { lemma_blen_strict(s@, chars_before(s, b) as int, chars_before(s, a) as int); }
    assert forall |t: &str| #![trigger t.spec_bytes()] t.spec_bytes() == sb(s).subrange(0, b) implies bnd(t, a) && mid(t, 0, a) == s@.take(chars_before(s, a) as int)
            && tail(t, a) == s@.subrange(chars_before(s, a) as int, chars_before(s, b) as int) by {
        assert(is_char_boundary(sb(s).subrange(0, b), a) == bnd(s, 0 + a));
        assert(sb(t).subrange(0, a) =~= sb(s).subrange(0, a));
        assert(sb(t).subrange(a, b) =~= sb(s).subrange(a, b));
    }
}
// ---------------------------------------------------------------- the lines of a text
pub open spec fn raw_lines(cs: Seq<char>) -> Seq<Seq<char>>
    decreases cs.len(),
{
    if cs.len() == 0 { seq![] } else {
        let k = upto_first_lf(cs) as int;
        if 0 < k <= cs.len() { seq![cs.take(k)] + raw_lines(cs.skip(k)) } else { seq![] }
    }
}
/// lines end with their line feed; after the last line feed there is one more line (maybe empty)
pub open spec fn all_lines(cs: Seq<char>) -> Seq<Seq<char>> { if cs.len() == 0 || cs.last() == '\n' { raw_lines(cs).push(seq![]) } else { raw_lines(cs) } }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|t: &str| t@) }
/// `collect`: take items until there are none
impl<'i> Lines<'i> {
    pub fn vx_collected(self) -> (r: Vec<&'i str>)
        requires self.inner.inv(), line_start(self.inner.span.input, self.inner.pos as int), self.inner.span.end == sb(self.inner.span.input).len(),
        ensures texts(r@) == raw_lines(tail(self.inner.span.input, self.inner.pos as int)),
    {
        let ghost s = self.inner.span.input;
        let ghost all = raw_lines(tail(s, self.inner.pos as int));
        let mut it = self;
        let mut v: Vec<&'i str> = Vec::new();
        loop
            invariant it.inner.inv(), it.inner.span.input == s, line_start(s, it.inner.pos as int), it.inner.span.end == sb(s).len(),
                all =~= texts(v@) + raw_lines(tail(s, it.inner.pos as int)),
            ensures it.inner.pos == sb(s).len(),
            decreases sb(s).len() - it.inner.pos
        {
            let ghost old = it;
            proof { lemma_valid(s); if it.inner.pos < sb(s).len() { lemma_next_line(s, it.inner.pos as int); } }
            match it.next() {
                None => break,
                Some(x) => {
                    proof {
                        let y = choose |y: Option<Span<'i>>| #[trigger] old.inner.step(&it.inner, y) && (Some(x) is Some <==> y is Some) && x@ == y->0.text();
                        let l = y->0;
                        lemma_line_text(s, l.start as int, l.end as int);
                    }
                    v.push(x);
                }
            }
        }
        proof { lemma_valid(s); assert(tail(s, sb(s).len() as int) =~= seq![]); }
        v
    }
}
proof fn lemma_next_line(s: &str, p: int)
    requires bnd(s, p), p < sb(s).len()
    ensures tail(s, p).len() > 0, 0 < upto_first_lf(tail(s, p)) <= tail(s, p).len()
{ lemma_tail_bytes(s, p); lemma_upto_bound(tail(s, p)); if tail(s, p).len() == 0 { assert(tail(s, p) =~= seq![]); assert(blen(tail(s, p)) == 0); } }
proof fn lemma_line_text(s: &str, a: int, b: int)
    requires is_line(s, a, b)
    ensures ({ let k = upto_first_lf(tail(s, a)) as int; tail(s, a).take(k) == mid(s, a, b) && tail(s, a).skip(k) == tail(s, b) && k == mid(s, a, b).len() }),
{
    lemma_valid(s); lemma_bnd_iff_sub(s, a, b); lemma_bnd_iff_sub(s, 0, b); lemma_bnd_iff_sub(s, 0, a);
    let t = tail(s, a); let m = mid(s, a, b); let k = m.len() as int;
    assert(t =~= m + tail(s, b));
    if b < sb(s).len() {
        lemma_off(s, a); lemma_off(s, b);
        assert(mid(s, 0, a) + m =~= mid(s, 0, b)) by { assert(s@ == mid(s, 0, a) + t); assert(s@ == mid(s, 0, b) + tail(s, b)); lemma_cut2(s, a, b);
            assert(mid(s, 0, a) + m =~= s@.take(mid(s, 0, a).len() + k)); assert(mid(s, 0, b).len() + tail(s, b).len() == mid(s, 0, a).len() + k + tail(s, b).len()); }
        assert(k > 0) by { if k == 0 { assert(m =~= seq![]); assert(blen(m) == 0); } }
        assert(t[k - 1] == m[k - 1] == mid(s, 0, b).last());
    } else { assert(tail(s, b) =~= seq![]) by { lemma_tail_bytes(s, b); lemma_len_le_blen(tail(s, b)); } }
    assert forall |i: int| 0 <= i < k - 1 implies #[trigger] t[i] != '\n' by { assert(t[i] == m[i]); }
    lemma_upto_first_lf(t, k);
    assert(t.take(k) =~= m); assert(t.skip(k) =~= tail(s, b));
}
//@free core lines_of
    requires input.wf(), input.start == 0, input.end == sb(input.input).len(),
    ensures texts(r@) =~= all_lines(input.input@),
//@start
    proof { lemma_valid(input.input); assert(tail(input.input, 0) == input.input@) by { assert(sb(input.input).subrange(0, sb(input.input).len() as int) =~= sb(input.input)); } reveal_strlit(""); assert(""@ =~= seq![]);
        assert(mid(input.input, 0, input.end as int) == input.input@) by { assert(sb(input.input).subrange(0, sb(input.input).len() as int) =~= sb(input.input)); }
        lemma_len_le_blen(input.input@); assert(input.input@.len() == 0 ==> input.input@ =~= seq![]); }
//@end
// ---------------------------------------------------------------- what is printed
/// the formatters of lines' numbers and bars, of markers and of the text in the span
pub ghost struct Ids { pub num: int, pub mark: int, pub text: int }
pub open spec fn sp(o: Seq<Ev>, n: int) -> Seq<Ev> { wr(o, blanks(if n < 0 { 0 } else { n as nat })) }
pub open spec fn ch(o: Seq<Ev>, c: char) -> Seq<Ev> { wr(o, seq![c]) }
/// the margin of a row without a line number, and of the row of line number `n`
pub open spec fn margin(o: Seq<Ev>, k: Ids, d: int) -> Seq<Ev> { fm(ch(sp(o, d), ' '), k.num, seq!['|']) }
pub open spec fn numbered(o: Seq<Ev>, k: Ids, d: int, n: int) -> Seq<Ev> { ch(fm(ch(fm(o, k.num, padded(dec(n as nat), d)), ' '), k.num, seq!['|']), ' ') }
/// a row of markers `m` after `w` columns
pub open spec fn marks(o: Seq<Ev>, k: Ids, d: int, w: int, m: Seq<char>) -> Seq<Ev> { ch(fm(sp(ch(margin(o, k, d), ' '), w), k.mark, m), '\n') }
pub open spec fn pic_pos(o: Seq<Ev>, k: Ids, d: int, line: int, former: Seq<char>, latter: Seq<char>) -> Seq<Ev> {
    let o = ch(margin(o, k, d), '\n');
    let o = ch(wr(wr(numbered(o, k, d, line + 1), former), latter), '\n');
    marks(o, k, d, width(former) as int, seq!['^'])
}
pub open spec fn pic_one(o: Seq<Ev>, k: Ids, d: int, line: int, former: Seq<char>, middle: Seq<char>, latter: Seq<char>) -> Seq<Ev> {
    let o = ch(margin(o, k, d), '\n');
    let o = ch(wr(fm(wr(numbered(o, k, d, line + 1), former), k.text, middle), latter), '\n');
    marks(o, k, d, width(former) as int, copies(seq!['^'], width(middle) as nat))
}
pub open spec fn pic_full(o: Seq<Ev>, k: Ids, d: int, n: int, t: Seq<char>) -> Seq<Ev> { ch(fm(numbered(o, k, d, n), k.text, t), '\n') }
pub open spec fn pic_dots(o: Seq<Ev>, k: Ids, d: int) -> Seq<Ev> { wr(margin(o, k, d), seq![' ', '.', '.', '.', '\n']) }
/// the row of the first line, the marker over the first character of the span above it
pub open spec fn pic_head(o: Seq<Ev>, k: Ids, d: int, line: int, former: Seq<char>, latter: Seq<char>) -> Seq<Ev> {
    ch(fm(wr(numbered(marks(o, k, d, width(former) as int, seq!['v']), k, d, line + 1), former), k.text, latter), '\n')
}
/// the row of the last line, the marker under the last column of the span below it
pub open spec fn pic_foot(o: Seq<Ev>, k: Ids, d: int, line: int, former: Seq<char>, latter: Seq<char>) -> Seq<Ev> {
    marks(ch(wr(fm(numbered(o, k, d, line + 1), k.text, former), latter), '\n'), k, d, width(former) - 1, seq!['^'])
}
pub open spec fn pic_opt(o: Seq<Ev>, k: Ids, d: int, n: int, t: Option<&str>) -> Seq<Ev> { if t is Some { pic_full(o, k, d, n, t->0@) } else { o } }
pub open spec fn pic_inner(o: Seq<Ev>, k: Ids, d: int, first: int, last: int, i: (Option<&str>, Option<&str>, bool, Option<&str>)) -> Seq<Ev> {
    let o = pic_opt(o, k, d, first + 2, i.0);
    let o = if i.1 is None && i.2 { pic_dots(o, k, d) } else { pic_opt(o, k, d, first + 3, i.1) };
    pic_opt(o, k, d, last, i.3)
}
pub open spec fn ids<SF: VxFmt<W>, MF: VxFmt<W>, NF: VxFmt<W>, W>(x: &FormatOption<SF, MF, NF>) -> Ids {
    Ids { num: x.number_formatter.fid(), mark: x.marker_formatter.fid(), text: x.span_formatter.fid() }
}
pub open spec fn never_fails<SF: VxFmt<W>, MF: VxFmt<W>, NF: VxFmt<W>, W: VxOut>(x: &FormatOption<SF, MF, NF>, f: &W) -> bool {
    f.sound() && x.number_formatter.total() && x.marker_formatter.total() && x.span_formatter.total()
}
/// items with their numbers
pub open spec fn numbered_items<T>(v: Seq<T>) -> Seq<(usize, T)> { Seq::new(v.len(), |i: int| (i as usize, v[i])) }
pub trait VxEnumerate<T>: Sized { fn vx_enumerate(self) -> VIter<(usize, T)>; }
/// TRUSTED: `enumerate`, `peekable`, and the iterators themselves
impl<'a, T> VxEnumerate<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: VIter<(usize, &'a T)>)
        ensures r@ == numbered_items(vstd::std_specs::iter::IteratorSpec::remaining(&self)),
    { unimplemented!() }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn vx_peekable(self) -> (r: VxPeek<T>)
        ensures r@ == self@,
    { unimplemented!() }
}
impl<T> IntoIterator for VxPeek<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<T>)
        ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self@, vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
    { unimplemented!() }
}
impl<T> IntoIterator for VIter<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<T>)
        ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self@, vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
    { unimplemented!() }
}
/// characters before line `k`
pub open spec fn lines_off(v: Seq<Seq<char>>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { lines_off(v, k - 1) + v[k - 1].len() } }
pub open spec fn loff(cs: Seq<char>, k: int) -> int { lines_off(all_lines(cs), k) }
proof fn lemma_no_lf(cs: Seq<char>, m: int, c: int)
    requires 0 <= m <= c <= cs.len(), forall |i: int| m <= i < c ==> #[trigger] cs[i] != '\n'
    ensures count_lf(cs.take(c)) == count_lf(cs.take(m)), after_last_lf(cs.take(c)) == after_last_lf(cs.take(m)),
    decreases c - m
{ if m < c { assert(cs.take(c).drop_last() =~= cs.take(c - 1)); assert(cs.take(c).last() == cs[c - 1]); lemma_no_lf(cs, m, c - 1); } }
proof fn lemma_raw(cs: Seq<char>, k: int)
    requires 0 <= k <= raw_lines(cs).len()
    ensures ({ let m = lines_off(raw_lines(cs), k); let rest = cs.skip(m);
        &&& 0 <= m <= cs.len() && raw_lines(cs).skip(k) == raw_lines(rest)
        &&& (k == 0 || k < raw_lines(cs).len() || cs.last() == '\n') ==> count_lf(cs.take(m)) == k && after_last_lf(cs.take(m)) == m
    }),
    decreases k
{
    let r = raw_lines(cs);
    if k == 0 { assert(cs.skip(0) =~= cs); assert(r.skip(0) =~= r); assert(cs.take(0) =~= seq![]); }
    else {
        lemma_raw(cs, k - 1);
        let m0 = lines_off(r, k - 1); let rest = cs.skip(m0); let j = upto_first_lf(rest) as int;
        lemma_upto_bound(rest); lemma_firstl(rest);
        assert(r.skip(k - 1)[0] == r[k - 1]);
        assert(rest.len() > 0 && r[k - 1] == rest.take(j));
        assert(raw_lines(rest) == seq![rest.take(j)] + raw_lines(rest.skip(j)));
        assert(r.skip(k) =~= r.skip(k - 1).skip(1));
        assert(raw_lines(rest).skip(1) =~= raw_lines(rest.skip(j)));
        assert(rest.skip(j) =~= cs.skip(m0 + j));
        if k < r.len() || cs.last() == '\n' {
            if k < r.len() { assert(r.skip(k).len() > 0); assert(rest.skip(j).len() > 0); assert(rest[j - 1] == '\n'); } else if j < rest.len() { } else { assert(rest[j - 1] == cs.last()); }
            assert(rest[j - 1] == cs[m0 + j - 1]);
            assert forall |i: int| m0 <= i < m0 + j - 1 implies #[trigger] cs[i] != '\n' by { assert(rest[i - m0] == cs[i]); }
            lemma_no_lf(cs, m0, m0 + j - 1);
            assert(cs.take(m0 + j).drop_last() =~= cs.take(m0 + j - 1)); assert(cs.take(m0 + j).last() == '\n');
        }
    }
}
proof fn lemma_off_eq(v: Seq<Seq<char>>, w: Seq<Seq<char>>, k: int)
    requires 0 <= k <= v.len(), k <= w.len(), forall |i: int| 0 <= i < k ==> v[i] == w[i]
    ensures lines_off(v, k) == lines_off(w, k),
    decreases k
{ if k > 0 { lemma_off_eq(v, w, k - 1); } }
/// line `k` of a text
proof fn lemma_line(cs: Seq<char>, k: int)
    requires 0 <= k < all_lines(cs).len()
    ensures ({ let m = loff(cs, k); let j = all_lines(cs)[k].len() as int; let last = k + 1 == all_lines(cs).len();
        &&& 0 <= m && m + j <= cs.len() && loff(cs, k + 1) == m + j
        &&& all_lines(cs)[k] == cs.subrange(m, m + j)
        &&& count_lf(cs.take(m)) == k && after_last_lf(cs.take(m)) == m
        &&& forall |i: int| m <= i < m + j - 1 ==> #[trigger] cs[i] != '\n'
        &&& !last ==> j > 0 && cs[m + j - 1] == '\n'
        &&& last ==> m + j == cs.len() && (j > 0 ==> cs[m + j - 1] != '\n')
    }),
{
    let r = raw_lines(cs); let a = all_lines(cs);
    lemma_off_eq(a, r, if k <= r.len() { k } else { r.len() as int });
    lemma_raw(cs, k);
    let m = lines_off(r, k); let rest = cs.skip(m);
    if k < r.len() {
        let j = upto_first_lf(rest) as int;
        lemma_upto_bound(rest); lemma_firstl(rest);
        assert(r.skip(k)[0] == r[k]);
        assert(rest.take(j) =~= cs.subrange(m, m + j));
        assert(raw_lines(rest) == seq![rest.take(j)] + raw_lines(rest.skip(j)));
        assert forall |i: int| m <= i < m + j - 1 implies #[trigger] cs[i] != '\n' by { assert(rest[i - m] == cs[i]); }
        assert(r.skip(k + 1) =~= r.skip(k).skip(1));
        assert(raw_lines(rest).skip(1) =~= raw_lines(rest.skip(j)));
        lemma_raw(cs, k + 1);
        if k + 1 < r.len() { assert(r.skip(k + 1).len() > 0); assert(rest.skip(j).len() > 0); assert(cs[m + j - 1] == rest[j - 1]); }
        else {
            assert(r.skip(k + 1).len() == 0); assert(raw_lines(rest.skip(j)).len() == 0); let q = rest.skip(j); lemma_upto_bound(q); assert(q.len() == 0);
            assert(m + j == cs.len());
        }
    } else {
        assert(r.skip(k).len() == 0); lemma_upto_bound(rest); assert(rest.len() == 0);
        assert(cs.subrange(m, m) =~= seq![]);
    }
}
/// the line of a character (or of the end of the last line)
proof fn lemma_in_line(cs: Seq<char>, k: int, c: int)
    requires 0 <= k < all_lines(cs).len(), loff(cs, k) <= c, c < loff(cs, k + 1) || (c == cs.len() && k + 1 == all_lines(cs).len())
    ensures count_lf(cs.take(c)) == k, after_last_lf(cs.take(c)) == loff(cs, k), c <= cs.len(), c + upto_first_lf(cs.skip(c)) == loff(cs, k + 1),
        all_lines(cs)[k] == cs.subrange(loff(cs, k), loff(cs, k + 1)), loff(cs, k + 1) <= cs.len(), 0 <= loff(cs, k),
{
    lemma_line(cs, k);
    let m = loff(cs, k); let e = loff(cs, k + 1);
    lemma_no_lf(cs, m, c);
    let t = cs.skip(c);
    assert forall |i: int| 0 <= i < e - c - 1 implies #[trigger] t[i] != '\n' by { assert(t[i] == cs[c + i]); }
    if e > c && e < cs.len() { assert(t[e - c - 1] == cs[e - 1]); }
    lemma_upto_first_lf(t, e - c);
}
/// cutting the line at an offset of the text
proof fn lemma_col(s: &str, k: int, p: int)
    requires 0 <= k < all_lines(s@).len(), bnd(s, p), off(s, loff(s@, k)) <= p <= off(s, loff(s@, k + 1))
    ensures ({ let m = loff(s@, k); let c = chars_before(s, p) as int;
        &&& 0 <= m <= c <= loff(s@, k + 1) <= s@.len()
        &&& (p < off(s, loff(s@, k + 1)) ==> c < loff(s@, k + 1))
        &&& (off(s, m) < p ==> m < c)
        &&& forall |t: &str| #![trigger t.spec_bytes()] t@ == all_lines(s@)[k] ==> bnd(t, p - off(s, m)) && chars_before(t, p - off(s, m)) == c - m
            && blen(t@) == sb(t).len() }),
{
    lemma_line(s@, k);
    let m = loff(s@, k); let e = loff(s@, k + 1); let c = chars_before(s, p) as int;
    lemma_off(s, p); lemma_off_bnd(s, m); lemma_off_bnd(s, e); lemma_mid_chars(s, m, e);
    if c < m { lemma_blen_strict(s@, c, m); }
    if c > e { lemma_blen_strict(s@, e, c); }
    lemma_mid_chars(s, m, c);
    lemma_sub(s, off(s, m) as int, off(s, e) as int);
    lemma_bnd_iff_sub(s, off(s, m) as int, off(s, e) as int);
    assert forall |t: &str| #![trigger t.spec_bytes()] t@ == all_lines(s@)[k] implies bnd(t, p - off(s, m)) && chars_before(t, p - off(s, m)) == c - m && blen(t@) == sb(t).len() by {
        lemma_valid(t);
        let u = sb(s).subrange(off(s, m) as int, off(s, e) as int);
        assert(sb(t) == u);
        assert(is_char_boundary(u, p - off(s, m)) == bnd(s, off(s, m) + (p - off(s, m))));
        assert(sb(t).subrange(0, p - off(s, m)) =~= sb(s).subrange(off(s, m) as int, p));
    }
}
proof fn lemma_line_bytes(s: &str, k: int)
    requires 0 <= k < all_lines(s@).len()
    ensures off(s, loff(s@, k + 1)) == off(s, loff(s@, k)) + blen(all_lines(s@)[k]), off(s, loff(s@, k + 1)) <= sb(s).len(),
        k + 1 == all_lines(s@).len() ==> off(s, loff(s@, k + 1)) == sb(s).len(),
{
    lemma_line(s@, k); lemma_valid(s);
    let m = loff(s@, k); let e = loff(s@, k + 1);
    assert(s@.take(e) =~= s@.take(m) + s@.subrange(m, e));
    lemma_encode_bnd(s@.take(m), s@.subrange(m, e));
    lemma_off_bnd(s, e);
    assert(s@.take(s@.len() as int) =~= s@);
}
/// `p` is displayed on line `k`
pub open spec fn on_line(s: &str, k: int, p: int) -> bool {
    0 <= k < all_lines(s@).len() && off(s, loff(s@, k)) <= p <= off(s, loff(s@, k + 1)) && (p < off(s, loff(s@, k + 1)) || k + 1 == all_lines(s@).len())
}
proof fn lemma_lines_some(cs: Seq<char>)
    ensures all_lines(cs).len() > 0
{ lemma_upto_bound(cs); lemma_raw(cs, 0); assert(raw_lines(cs).skip(0) =~= raw_lines(cs)); }
/// the numbered lines not taken yet
pub open spec fn left(w: Seq<(usize, &&str)>, v: Seq<&str>) -> bool {
    w.len() <= v.len() && forall |i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 == v.len() - w.len() + i && *w[i].1 == v[v.len() - w.len() + i]
}
/// what is printed for a position: the line with the position in it (its number is 1 more than the line feeds before),
/// a marker under the first character after the position
pub open spec fn shown_pos(o: Seq<Ev>, k: Ids, cs: Seq<char>, c: int) -> Seq<Ev> {
    let l = count_lf(cs.take(c)) as int;
    pic_pos(o, k, dec((l + 1) as nat).len() as int, l, vis(cs.subrange(after_last_lf(cs.take(c)) as int, c)), vis(cs.subrange(c, c + upto_first_lf(cs.skip(c)))))
}
pub trait VxAsDeref { fn vx_as_deref(&self) -> Option<&str>; }
impl VxAsDeref for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>)
        ensures r is Some == self is Some, r is Some ==> r->0@ == self->0@,
    { self.as_deref() }
}
pub trait VxEnds<T> {
    fn vx_first(&self) -> Option<&T>;
    fn vx_last(&self) -> Option<&T>;
}
impl<T> VxEnds<T> for [T] {
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&T>)
        ensures r is Some == (self@.len() > 0), r is Some ==> *r->0 == self@[0],
    { self.first() }
    #[verifier::external_body]
    fn vx_last(&self) -> (r: Option<&T>)
        ensures r is Some == (self@.len() > 0), r is Some ==> *r->0 == self@.last(),
    { self.last() }
}
pub open spec fn at(p: Option<Pos>, l: int, c: int) -> bool { p is Some && p->0.line == l && p->0.col == c }
pub open spec fn none(p: Option<Pos>) -> bool { p is None }
/// the end of a span that starts on line `k0`
pub open spec fn end_at(s: &str, k0: int, e: Option<Pos>, p: int) -> bool {
    let k = e->0.line as int;
    e is Some && k0 <= k < all_lines(s@).len() && off(s, loff(s@, k)) <= p <= off(s, loff(s@, k + 1)) && (k == k0 || off(s, loff(s@, k)) < p)
        && e->0.col == p - off(s, loff(s@, k))
}
/// what is printed for the span of the characters `a` up to `b`, from line `l1` to line `l2` (lines starting at `m1`, `m2`)
pub open spec fn shown_lines(o: Seq<Ev>, k: Ids, cs: Seq<char>, a: int, b: int, l1: int, m1: int, l2: int, m2: int) -> Seq<Ev> {
    let d = dec((l2 + 1) as nat).len() as int;
    let all = all_lines(cs);
    let (c1, c2) = (a - m1, b - m2);
    if l1 == l2 { pic_one(o, k, d, l1, vis(all[l1].take(c1)), vis(all[l1].subrange(c1, c2)), vis(all[l1].skip(c2))) }
    else {
        let o = pic_head(o, k, d, l1, vis(all[l1].take(c1)), vis(all[l1].skip(c1)));
        // the lines in between: all of them, when there are three or less; otherwise the first and the last of them
        let o = if l2 - l1 >= 2 { pic_full(o, k, d, l1 + 2, vis(all[l1 + 1])) } else { o };
        let o = if l2 - l1 >= 5 { pic_dots(o, k, d) } else if l2 - l1 == 4 { pic_full(o, k, d, l1 + 3, vis(all[l1 + 2])) } else { o };
        let o = if l2 - l1 >= 3 { pic_full(o, k, d, l2, vis(all[l2 - 1])) } else { o };
        pic_foot(o, k, d, l2, vis(all[l2].take(c2)), vis(all[l2].skip(c2)))
    }
}
/// for a span: from the line of its first character to the line of its last one
pub open spec fn shown_span(o: Seq<Ev>, k: Ids, cs: Seq<char>, a: int, b: int) -> Seq<Ev> {
    let e = if a < b { b - 1 } else { b };
    shown_lines(o, k, cs, a, b, count_lf(cs.take(a)) as int, after_last_lf(cs.take(a)) as int, count_lf(cs.take(e)) as int, after_last_lf(cs.take(e)) as int)
}
/// where a span that starts on line `k` and ends on line `j` cuts the lines `v`
pub open spec fn cuts(s: &str, v: Seq<&str>, a: int, b: int, k: int, j: int) -> bool {
    let (m1, m2) = (loff(s@, k), loff(s@, j));
    let (c1, c2) = (chars_before(s, a) as int, chars_before(s, b) as int);
    &&& 0 <= k <= j < v.len() && texts(v) == all_lines(s@)
    &&& bnd(v[k], a - off(s, m1)) && chars_before(v[k], a - off(s, m1)) == c1 - m1
    &&& bnd(v[j], b - off(s, m2)) && chars_before(v[j], b - off(s, m2)) == c2 - m2
    &&& count_lf(s@.take(c1)) == k && after_last_lf(s@.take(c1)) == m1
    &&& ({ let e = if c1 < c2 { c2 - 1 } else { c2 }; count_lf(s@.take(e)) == j && after_last_lf(s@.take(e)) == m2 })
}
proof fn lemma_cuts(s: &str, v: Seq<&str>, a: int, b: int, k: int, j: int)
    requires texts(v) == all_lines(s@), bnd(s, a), bnd(s, b), a <= b, on_line(s, k, a),
        k <= j < v.len(), off(s, loff(s@, j)) <= b <= off(s, loff(s@, j + 1)), j == k || off(s, loff(s@, j)) < b,
    ensures cuts(s, v, a, b, k, j),
{
    assert(texts(v)[k] == v[k]@); assert(texts(v)[j] == v[j]@);
    lemma_valid(v[k]); lemma_valid(v[j]);
    lemma_col(s, k, a); lemma_col(s, j, b); lemma_off(s, a); lemma_off(s, b);
    let (c1, c2) = (chars_before(s, a) as int, chars_before(s, b) as int);
    if c2 < c1 { lemma_blen_strict(s@, c2, c1); }
    if c1 == c2 { assert(a == b); }
    lemma_line(s@, k); lemma_line(s@, j);
    lemma_in_line(s@, k, c1);
    if c1 < c2 {
        if k == j { } else { lemma_off_bnd(s, loff(s@, j)); assert(loff(s@, j) < c2); }
        lemma_in_line(s@, j, c2 - 1);
    } else {
        assert(j == k) by { if k < j { lemma_loff_mono(s@, k + 1, j); lemma_mid_chars(s, loff(s@, k + 1), loff(s@, j)); } }
        lemma_in_line(s@, j, c2);
    }
}
proof fn lemma_cuts_if(s: &str, v: Seq<&str>, a: int, b: int, k: int, j: int)
    requires texts(v) == all_lines(s@), bnd(s, a), bnd(s, b), a <= b, on_line(s, k, a),
        k <= j < v.len(), off(s, loff(s@, j)) <= b, j == k || off(s, loff(s@, j)) < b,
    ensures b <= off(s, loff(s@, j + 1)) ==> cuts(s, v, a, b, k, j),
{ if b <= off(s, loff(s@, j + 1)) { lemma_cuts(s, v, a, b, k, j); } }
proof fn lemma_loff_mono(cs: Seq<char>, i: int, j: int)
    requires 0 <= i <= j < all_lines(cs).len()
    ensures loff(cs, i) <= loff(cs, j) <= cs.len(), 0 <= loff(cs, i)
    decreases j - i
{ lemma_line(cs, j); lemma_line(cs, i); if i < j { lemma_loff_mono(cs, i, j - 1); lemma_line(cs, j - 1); } }
//@open core impl FormatOption
//@fn ceil_log10
    ensures r == dec(num as nat).len(),
//@loop 0
    invariant dec(num as nat).len() == digit + dec(i as nat).len() - 1, digit - 1 + i <= num,
    decreases i
//@fn display_snippet_single_pos
    requires line.line < usize::MAX,
    ensures
        r is Ok ==> final(f).out() == pic_pos(old(f).out(), ids::<SF, MF, NF, Writer>(&self), index_digit as int, line.line as int, line.former@, line.latter@),
        never_fails(&self, old(f)) ==> r is Ok && final(f).sound(),
//@start
    broadcast use fmtl::fmt_lemmas;
    proof { vx_reveal_literals!(); assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']); assert("|"@ =~= seq!['|']); assert("^"@ =~= seq!['^']); }
//@fn display_snippet_single_line
    requires line.line < usize::MAX,
    ensures
        r is Ok ==> final(f).out() == pic_one(old(f).out(), ids::<SF, MF, NF, Writer>(&self), index_digit as int, line.line as int, line.former@, line.middle@, line.latter@),
        never_fails(&self, old(f)) ==> r is Ok && final(f).sound(),
//@start
    broadcast use fmtl::fmt_lemmas;
    proof { vx_reveal_literals!(); assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']); assert("|"@ =~= seq!['|']); assert("^"@ =~= seq!['^']); }
//@fn display_full_covered_snippet
    ensures
        ids::<SF, MF, NF, Writer>(final(self)) == ids::<SF, MF, NF, Writer>(old(self)),
        r is Ok ==> final(f).out() == pic_full(old(f).out(), ids::<SF, MF, NF, Writer>(old(self)), index_digit as int, line as int, line_content@),
        never_fails(old(self), old(f)) ==> r is Ok && never_fails(final(self), final(f)),
//@start
    broadcast use fmtl::fmt_lemmas;
    proof { vx_reveal_literals!(); assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']); assert("|"@ =~= seq!['|']); }
//@fn display_snippet_multi_line
    requires start.line < usize::MAX, end.line < usize::MAX, inner.0 is Some ==> start.line + 2 <= usize::MAX, inner.1 is Some ==> start.line + 3 <= usize::MAX,
    ensures
        r is Ok ==> final(f).out() == ({
            let k = ids::<SF, MF, NF, Writer>(&self); let d = index_digit as int;
            let o = pic_head(old(f).out(), k, d, start.line as int, start.former@, start.latter@);
            let o = pic_inner(o, k, d, start.line as int, end.line as int, inner);
            pic_foot(o, k, d, end.line as int, end.former@, end.latter@)
        }),
        never_fails(&self, old(f)) ==> r is Ok && final(f).sound(),
//@start
    broadcast use fmtl::fmt_lemmas;
    proof { vx_reveal_literals!(); assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']); assert("|"@ =~= seq!['|']); assert("^"@ =~= seq!['^']); assert("v"@ =~= seq!['v']); assert(" ...\n"@ =~= seq![' ', '.', '.', '.', '\n']); }
//@fn display_position
    requires position.wf(),
    ensures
        r is Ok ==> final(f).out() == shown_pos(old(f).out(), ids::<SF, MF, NF, Writer>(&self), position.input@, chars_before(position.input, position.pos as int) as int),
        never_fails(&self, old(f)) ==> r is Ok && final(f).sound(),
//@start
    let ghost s = position.input;
    proof { lemma_valid(s); axiom_str_len(s); assert(s@.take(0) =~= seq![]); assert(blen(seq![]) == 0); assert(off(s, 0) == 0); lemma_lines_some(s@); }
//@loop 0
    invariant_except_break
        f.out() == old(f).out(),
    invariant
        s == position.input, bnd(s, position.pos as int), texts(lines@) == all_lines(s@), left(iter@, lines@), lines@.len() == lines.len(),
        pos == off(s, loff(s@, lines@.len() - iter@.len())), pos <= position.pos, iter@.len() > 0,
        never_fails(&self, old(f)) ==> never_fails(&self, f),
    ensures
        f.out() == shown_pos(old(f).out(), ids::<SF, MF, NF, Writer>(&self), s@, chars_before(s, position.pos as int) as int),
        never_fails(&self, old(f)) ==> f.sound(),
    decreases iter@.len()
//@loopstart 0
    proof {
        let k = lines@.len() - iter@.len();
        assert(texts(lines@)[k] == lines@[k]@);
        lemma_valid(s); lemma_line_bytes(s, k); lemma_valid(lines@[k]); axiom_str_len(s);
        if on_line(s, k, position.pos as int) {
            lemma_col(s, k, position.pos as int);
            let c = chars_before(s, position.pos as int) as int;
            lemma_off(s, position.pos as int);
            lemma_in_line(s@, k, c);
            let t = all_lines(s@)[k]; let m = loff(s@, k);
            assert(t.take(c - m) =~= s@.subrange(m, c));
            assert(t.skip(c - m) =~= s@.subrange(c, loff(s@, k + 1)));
        }
    }
//@fn display_span
    requires span.wf(),
    ensures
        r is Ok ==> final(f).out() == shown_span(old(f).out(), ids::<SF, MF, NF, Writer>(&self), span.input@, chars_before(span.input, span.start as int) as int, chars_before(span.input, span.end as int) as int),
        never_fails(&self, old(f)) ==> r is Ok && final(f).sound(),
//@start
    let ghost s = span.input;
    proof { lemma_valid(s); axiom_str_len(s); assert(s@.take(0) =~= seq![]); assert(blen(seq![]) == 0); assert(off(s, 0) == 0); lemma_lines_some(s@);
        lemma_off(s, span.start as int); lemma_off(s, span.end as int); lemma_line_bytes(s, all_lines(s@).len() - 1); }
//@loop 0
    invariant
        s == span.input, span.wf(), texts(lines@) == all_lines(s@), left(iter@, lines@), lines@.len() == lines.len(),
        pos == off(s, loff(s@, lines@.len() - iter@.len())), pos <= span.start, iter@.len() > 0,
    ensures
        on_line(s, lines@.len() - iter@.len(), span.start as int), at(start, lines@.len() - iter@.len(), span.start - pos),
    decreases iter@.len()
//@loopstart 0
    proof {
        let k = lines@.len() - iter@.len();
        assert(texts(lines@)[k] == lines@[k]@);
        lemma_valid(s); lemma_line_bytes(s, k); lemma_valid(lines@[k]); axiom_str_len(s);
    }
//@loop 1
    invariant_except_break
        none(end), pos == off(s, loff(s@, lines@.len() - it1.seq().len() + it1.index@)), pos < span.end || it1.index@ == 0,
    invariant
        off(s, loff(s@, all_lines(s@).len() as int)) == sb(s).len(), all_lines(s@).len() == lines@.len(),
        s == span.input, span.wf(), texts(lines@) == all_lines(s@), left(it1.seq(), lines@), lines@.len() == lines.len(), it1.seq().len() > 0,
        on_line(s, lines@.len() - it1.seq().len(), span.start as int), at(start, lines@.len() - it1.seq().len(), span.start - off(s, loff(s@, lines@.len() - it1.seq().len()))),
    ensures
        end_at(s, lines@.len() - it1.seq().len(), end, span.end as int),
        cuts(s, lines@, span.start as int, span.end as int, lines@.len() - it1.seq().len(), end->0.line as int),
//@loopstart 1
    proof {
        let k = lines@.len() - it1.seq().len() + it1.index@;
        assert(texts(lines@)[k] == lines@[k]@);
        lemma_valid(s); lemma_line_bytes(s, k); lemma_valid(lines@[k]); axiom_str_len(s);
        lemma_cuts_if(s, lines@, span.start as int, span.end as int, lines@.len() - it1.seq().len(), k);
    }
//@close
//@open core impl Span has=display
//@fn display
    requires self.wf(),
    ensures
        r is Ok ==> final(f).out() == shown_span(old(f).out(), ids::<SF, MF, NF, Writer>(&opt), self.input@, chars_before(self.input, self.start as int) as int, chars_before(self.input, self.end as int) as int),
        never_fails(&opt, old(f)) ==> r is Ok && final(f).sound(),
//@close
//@open core impl Position has=display
//@fn display
    requires self.wf(),
    ensures
        r is Ok ==> final(f).out() == shown_pos(old(f).out(), ids::<SF, MF, NF, Writer>(&opt), self.input@, chars_before(self.input, self.pos as int) as int),
        never_fails(&opt, old(f)) ==> r is Ok && final(f).sound(),
//@close
