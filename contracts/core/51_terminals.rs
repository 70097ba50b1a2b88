// ---------------------------------------------------------------- terminals
//@open core trait String as=StringWrapper keep listed
//@close
/// number of characters a string terminal consumes
pub open spec fn n_str<'i>(p: Position<'i>, s: Seq<char>) -> Option<int> {
    if s.is_prefix_of(p.rest()) { Some(s.len() as int) } else { None }
}
pub open spec fn n_ci<'i>(p: Position<'i>, s: Seq<char>) -> Option<int> {
    if s.len() <= p.rest().len() && eq_ci(p.rest().take(s.len() as int), s) { Some(s.len() as int) } else { None }
}
pub open spec fn n_skip<'i>(p: Position<'i>, n: int) -> Option<int> { if n <= p.rest().len() { Some(n) } else { None } }
pub open spec fn n_range<'i>(p: Position<'i>, lo: char, hi: char) -> Option<int> {
    if p.rest().len() > 0 && lo <= p.rest()[0] <= hi { Some(1) } else { None }
}
/// newline: CRLF preferred over a lone LF or CR
pub open spec fn n_newline<'i>(p: Position<'i>) -> Option<int> {
    if seq!['\r', '\n'].is_prefix_of(p.rest()) { Some(2) }
    else if p.rest().len() > 0 && (p.rest()[0] == '\n' || p.rest()[0] == '\r') { Some(1) }
    else { None }
}
pub proof fn lemma_term<'i>(p: Position<'i>, n: int)
    requires p.wf(), 0 <= n <= p.rest().len()
    ensures ({ let q = p.adv(p.rest().take(n));
        &&& q.wf() &&& q.input == p.input &&& q.pos >= p.pos &&& mid(p.input, p.pos as int, q.pos as int) == p.rest().take(n)
        &&& p.pos + blen(p.rest().take(n)) <= p.len() && q.pos == p.pos + blen(p.rest().take(n)) }),
{ assert(p.rest().take(n).is_prefix_of(p.rest())); lemma_adv(p, p.rest().take(n)); }
pub proof fn lemma_prefix<'i>(p: Position<'i>, s: Seq<char>)
    ensures s.is_prefix_of(p.rest()) ==> s == p.rest().take(s.len() as int)
{ if s.is_prefix_of(p.rest()) { assert(s =~= p.rest().take(s.len() as int)); } }

//@item core Str
//@open core impl StringWrapper for Str
//@close
//@open core impl From for Str
//@fn from
//@close
//@open core impl TypedNode for Str
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_str(input, T::CONTENT@)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@fn try_parse_with_partial
//@start
    proof { lemma_prefix(input, T::CONTENT@); if T::CONTENT@.is_prefix_of(input.rest()) { lemma_term(input, T::CONTENT@.len() as int); } }
//@fn check_with_partial
//@start
    proof { lemma_prefix(input, T::CONTENT@); if T::CONTENT@.is_prefix_of(input.rest()) { lemma_term(input, T::CONTENT@.len() as int); } }
//@close
//@item core Insens
//@open core impl StringWrapper for Insens
//@close
impl<'i, T: StringWrapper> vstd::std_specs::convert::FromSpecImpl<&'i str> for Insens<'i, T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(content: &'i str) -> Self { Insens { content, _phantom: PhantomData } }
}
//@open core impl From for Insens
//@fn from
    ensures r.content == content,
//@close
//@open core impl TypedNode for Insens
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_ci(input, T::CONTENT@)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    /// `content` is the text consumed
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { self.content@ == input.rest().take(T::CONTENT@.len() as int) }
//@fn try_parse_with_partial
//@start
    proof { if n_ci(input, T::CONTENT@) is Some { lemma_term(input, T::CONTENT@.len() as int); } }
//@fn check_with_partial
//@start
    proof { if n_ci(input, T::CONTENT@) is Some { lemma_term(input, T::CONTENT@.len() as int); } }
//@close
//@item core SkipChar
//@open core impl TypedNode for SkipChar
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_skip(input, N as int)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { 
        self.span.input == input.input && self.span.start == input.pos && self.span.end == input.adv(input.rest().take(N as int)).pos
    }
//@fn try_parse_with_partial
//@start
    proof { if N <= input.rest().len() { lemma_term(input, N as int); } }
//@fn check_with_partial
//@start
    proof { if N <= input.rest().len() { lemma_term(input, N as int); } }
//@close
//@item core CharRange
//@open core impl TypedNode for CharRange
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_range(input, MIN, MAX)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); assert(input.rest().take(1)[0] == input.rest()[0]); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); } }
//@close
//@item core Char
pub trait VxChar {
    /// TRUSTED: `c.encode_utf8(buf)` is the one-character string `c`.
    fn vx_encode_utf8<'a, B>(&self, b: &'a mut B) -> &'a str;
}
impl VxChar for char {
    #[verifier::external_body]
    fn vx_encode_utf8<'a, B>(&self, b: &'a mut B) -> (r: &'a str)
        ensures r@ == seq![*self],
    { unimplemented!() }
}
//@open core impl TypedNode for Char
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_str(input, seq![CHAR])) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@fn try_parse_with_partial
//@start
    proof { lemma_prefix(input, seq![CHAR]); if seq![CHAR].is_prefix_of(input.rest()) { lemma_term(input, 1); } }
//@fn check_with_partial
//@start
    proof { lemma_prefix(input, seq![CHAR]); if seq![CHAR].is_prefix_of(input.rest()) { lemma_term(input, 1); } }
//@close
//@item core any
//@open core impl TypedNode for any
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_skip(input, 1)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { input.rest().len() > 0 && self.content == input.rest()[0] }
//@fn try_parse_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); } }
//@fn check_with_partial
//@start
    proof { if input.rest().len() > 0 { lemma_term(input, 1); lemma_first(input); } }
//@close
//@item core NONE
//@open core impl TypedNode for NONE
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { (None, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { false }
//@close
//@item core Empty
//@open core impl TypedNode for Empty
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { (Some(input), st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@close
//@open core impl NeverFailedTypedNode for Empty
    open spec fn nf_sem(input: Position<'i>, st: St<'i>) -> (Position<'i>, St<'i>) { (input, st) }
    open spec fn nf_ok(&self, input: Position<'i>, st: St<'i>) -> bool { true }
//@close
//@item core NewLineType
//@item core newline
pub proof fn lemma_newline<'i>(p: Position<'i>)
    requires p.wf()
    ensures
        match n_newline(p) { Some(n) => 0 <= n <= p.rest().len(), None => true },
        "\r\n"@ == seq!['\r', '\n'], "\n"@ == seq!['\n'], "\r"@ == seq!['\r'],
        "\n"@.is_prefix_of(p.rest()) == (p.rest().len() > 0 && p.rest()[0] == '\n'),
        "\r"@.is_prefix_of(p.rest()) == (p.rest().len() > 0 && p.rest()[0] == '\r'),
        "\r\n"@.is_prefix_of(p.rest()) ==> p.rest().take(2) == "\r\n"@,
        p.rest().len() > 0 ==> p.rest().take(1) == seq![p.rest()[0]],
{
    reveal_strlit("\r\n"); reveal_strlit("\n"); reveal_strlit("\r");
    assert("\r\n"@ =~= seq!['\r', '\n']); assert("\n"@ =~= seq!['\n']); assert("\r"@ =~= seq!['\r']);
    lemma_prefix(p, "\r\n"@);
    if p.rest().len() > 0 {
        assert(p.rest().take(1) =~= seq![p.rest()[0]]);
        if "\n"@.is_prefix_of(p.rest()) { lemma_prefix(p, "\n"@); assert(p.rest().take(1)[0] == '\n'); }
        if "\r"@.is_prefix_of(p.rest()) { lemma_prefix(p, "\r"@); assert(p.rest().take(1)[0] == '\r'); }
    }
}
//@open core impl TypedNode for newline
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { term(input, st, n_newline(input)) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { t }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool {
        match self.content {
            NewLineType::CRLF => seq!['\r', '\n'].is_prefix_of(input.rest()),
            NewLineType::LF => input.rest().len() > 0 && input.rest()[0] == '\n',
            NewLineType::CR => input.rest().len() > 0 && input.rest()[0] == '\r' && !seq!['\r', '\n'].is_prefix_of(input.rest()),
        }
    }
//@fn try_parse_with_partial
//@start
    proof { lemma_newline(input); match n_newline(input) { Some(n) => { lemma_term(input, n); }, None => {} } }
//@fn check_with_partial
//@start
    proof { lemma_newline(input); match n_newline(input) { Some(n) => { lemma_term(input, n); }, None => {} } }
//@close
