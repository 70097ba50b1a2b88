// pest3_meta: from the pairs of grammar.pest to the rules of a grammar
//@path String String
//@rename chars 0 vx_chars
//@rename clone 0 vx_clone
//@rename parse 0 vx_parse
//@rename to_string 0 vx_to_string
//@rename to_owned 0 vx_to_string
//@rename ok_or 1 vx_ok_or
//@rename ok_or_else 1 vx_ok_or
//@path pest::Span PestSpan
//@path Span Span
//@path pest::iterators::Pair Pair
//@path pest::iterators::Pairs Pairs
//@rename len 0 vx_len
//@rename trim 0 vx_trim
//@rename to_path_buf 0 vx_to_path
//@rename bitor 1 vx_or
use vstd::std_specs::iter::IteratorSpec;
pub type Name = Seq<char>;
//@item meta Rule
#[verifier::external] impl Clone for Rule { fn clone(&self) -> Self { *self } }
impl Copy for Rule {}
impl PartialEqSpecImpl for Rule {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Rule) -> bool { *self == *o }
}
impl PartialEq for Rule {
    #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
// ---------------------------------------------------------------- TRUSTED: the pairs of the pest crate
/// a pair with the pairs in it
pub struct Tree { pub rule: Rule, pub text: Name, pub kids: Seq<Tree> }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pair<'i, R> { s: &'i str, r: R }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Pairs<'i, R> { s: &'i str, r: R }
#[verifier::external_body]
pub struct PestSpan<'i> { s: &'i str }
#[verifier::external_body]
pub struct PestPos<'i> { s: &'i str }
impl<'i> PestSpan<'i> {
    pub uninterp spec fn first(&self) -> usize;
    pub uninterp spec fn past(&self) -> usize;
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r == self.first(), { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures r == self.past(), { unimplemented!() }
    #[verifier::external_body] pub fn start_pos(&self) -> PestPos<'i> { unimplemented!() }
    #[verifier::external_body] pub fn end_pos(&self) -> PestPos<'i> { unimplemented!() }
}
impl<'i> PestPos<'i> {
    #[verifier::external_body] pub fn span(&self, o: &PestPos<'i>) -> PestSpan<'i> { unimplemented!() }
}
impl<'i> Pair<'i, Rule> {
    pub uninterp spec fn view(&self) -> Tree;
    pub open spec fn rule_of(&self) -> Rule { self@.rule }
    #[verifier::external_body] #[verifier::when_used_as_spec(rule_of)] pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule, { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'i str) ensures r@ == self@.text, { unimplemented!() }
    #[verifier::external_body] pub fn as_span(&self) -> PestSpan<'i> { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: Pairs<'i, Rule>) ensures r@ == self@.kids, { unimplemented!() }
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() }
}
impl<'i> Pairs<'i, Rule> {
    pub uninterp spec fn view(&self) -> Seq<Tree>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Pair<'i, Rule>>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<Pair<'i, Rule>>)
        ensures r is Some == (self@.len() > 0), r is Some ==> r->0@ == self@[0],
    { unimplemented!() }
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body] pub fn vx_rev(self) -> (r: Self) ensures r@ == self@.reverse(), { unimplemented!() }
    /// the first that the closure accepts
    #[verifier::external_body]
    pub fn find<F: Fn(&Pair<'i, Rule>) -> bool>(self, f: F) -> (r: Option<Pair<'i, Rule>>)
        requires forall |p: Pair<'i, Rule>| #[trigger] call_requires(f, (&p,)),
        ensures
            r is Some ==> call_ensures(f, (&r->0,), true) && exists |k: int| 0 <= k < self@.len() && r->0@ == #[trigger] self@[k]
                && forall |j: int| 0 <= j < k ==> exists |p: Pair<'i, Rule>| p@ == #[trigger] self@[j] && #[trigger] call_ensures(f, (&p,), false),
            r is None ==> forall |j: int| 0 <= j < self@.len() ==> exists |p: Pair<'i, Rule>| p@ == #[trigger] self@[j] && #[trigger] call_ensures(f, (&p,), false),
    { unimplemented!() }
}
pub open spec fn views(v: Seq<Pair<'_, Rule>>) -> Seq<Tree> { v.map_values(|p: Pair<'_, Rule>| p@) }
impl<'i> IntoIterator for Pairs<'i, Rule> {
    type Item = Pair<'i, Rule>;
    type IntoIter = std::vec::IntoIter<Pair<'i, Rule>>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<Pair<'i, Rule>>)
        ensures views(r.remaining()) == self@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
impl<'a, 'i> IntoIterator for &'a mut Pairs<'i, Rule> {
    type Item = Pair<'i, Rule>;
    type IntoIter = std::vec::IntoIter<Pair<'i, Rule>>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<Pair<'i, Rule>>)
        ensures views(r.remaining()) == old(self)@, r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
/// errors with a message and a place
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Error<R> { r: R }
pub enum ErrorVariant { CustomError { message: String } }
impl Error<Rule> {
    #[verifier::external_body] pub fn new_from_span(v: ErrorVariant, s: PestSpan<'_>) -> Error<Rule> { unimplemented!() }
}
pub trait VxOkOr<T>: Sized { fn vx_ok_or<E>(self, e: E) -> Result<T, E>; }
impl<T> VxOkOr<T> for Option<T> {
    fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>)
        ensures match self { Some(x) => r == Ok::<T, E>(x), None => r == Err::<T, E>(e) },
    { match self { Some(x) => Ok(x), None => Err(e) } }
}
/// how tightly an infix operator binds, and whether to the right
pub type Table = Seq<Seq<(Rule, bool)>>;
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct PrattParser<R> { r: R }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Op<R> { r: R }
pub enum Assoc { Left, Right }
impl Op<Rule> {
    pub uninterp spec fn view(&self) -> Seq<(Rule, bool)>;
    #[verifier::external_body] pub fn infix(rule: Rule, a: Assoc) -> (r: Self) ensures r@ == seq![(rule, a is Right)], { unimplemented!() }
    #[verifier::external_body] pub fn vx_or(self, o: Self) -> (r: Self) ensures r@ == self@ + o@, { unimplemented!() }
}
impl PrattParser<Rule> {
    pub uninterp spec fn view(&self) -> Table;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Seq<(Rule, bool)>>::empty(), { unimplemented!() }
    /// operators that bind more tightly than those before
    #[verifier::external_body] pub fn op(self, o: Op<Rule>) -> (r: Self) ensures r@ == self@.push(o@), { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_infix(&self, p: &Pair<'_, Rule>) -> (r: bool) ensures r == (level(self@, p@.rule) is Some), { unimplemented!() }
    /// operands and operators in the order in which the closures take them
    #[verifier::external_body]
    pub fn vx_rpn<'i>(&self, pairs: Pairs<'i, Rule>) -> (r: std::vec::IntoIter<Pair<'i, Rule>>)
        requires operands_ok(self@, pairs@),
        ensures views(r.remaining()) == rpn(self@, pairs@), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
pub open spec fn in_level(l: Seq<(Rule, bool)>, rule: Rule) -> Option<bool>
    decreases l.len(),
{ if l.len() == 0 { None } else if l[0].0 == rule { Some(l[0].1) } else { in_level(l.skip(1), rule) } }
/// the level of an operator and whether it associates to the right
pub open spec fn level(t: Table, rule: Rule) -> Option<(int, bool)>
    decreases t.len(),
{ if t.len() == 0 { None } else { match in_level(t.last(), rule) { Some(b) => Some((t.len() - 1, b)), None => level(t.drop_last(), rule) } } }
/// operands with infix operators between
pub open spec fn operands_ok(t: Table, s: Seq<Tree>) -> bool {
    s.len() % 2 == 1 && forall |i: int| 0 <= i < s.len() ==> (level(t, (#[trigger] s[i]).rule) is Some) == (i % 2 == 1)
}
/// of the operators at odd places, the one applied last: of the loosest ones the leftmost if they
/// associate to the right, the rightmost if to the left
pub open spec fn root(t: Table, s: Seq<Tree>) -> int
    decreases s.len(),
{
    if s.len() <= 3 { 1 } else {
        let (k, j) = (root(t, s.take(s.len() - 2)), s.len() - 2);
        let (a, b) = (level(t, s[k].rule)->0, level(t, s[j].rule)->0);
        if b.0 < a.0 || b.0 == a.0 && !b.1 { j } else { k }
    }
}
pub open spec fn rpn(t: Table, s: Seq<Tree>) -> Seq<Tree>
    decreases s.len(),
{
    let k = root(t, s);
    if s.len() <= 1 || !(0 <= k < s.len()) { s } else { rpn(t, s.take(k)) + rpn(t, s.skip(k + 1)) + seq![s[k]] }
}
pub proof fn root_odd(t: Table, s: Seq<Tree>)
    requires s.len() >= 3, s.len() % 2 == 1,
    ensures 1 <= root(t, s) < s.len() - 1, root(t, s) % 2 == 1,
    decreases s.len(),
{ if s.len() > 3 { root_odd(t, s.take(s.len() - 2)); } }
/// TRUSTED: numbers read from text
pub uninterp spec fn parsed<F>(s: Name) -> Option<F>;
pub struct NotParsed;
pub trait FromStr: Sized {}
impl FromStr for usize {}
impl FromStr for isize {}
pub trait VxParse { fn vx_parse<F: FromStr>(&self) -> Result<F, NotParsed>; }
impl VxParse for str {
    #[verifier::external_body]
    fn vx_parse<F: FromStr>(&self) -> (r: Result<F, NotParsed>)
        ensures match parsed::<F>(self@) { Some(x) => r == Ok::<F, NotParsed>(x), None => r is Err },
    { unimplemented!() }
}
pub trait VxToString { fn vx_to_string(&self) -> String; }
impl VxToString for str {
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) ensures r@ == self@, { unimplemented!() }
}
impl VxToString for String {
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) ensures r@ == self@, { unimplemented!() }
}
#[verifier::external_body] pub fn vx_formatted() -> (r: String) { unimplemented!() }
pub trait VxLen { spec fn size(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.size(); }
impl VxLen for str {
    open spec fn size(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() }
}
impl<T> VxLen for Vec<T> {
    open spec fn size(&self) -> nat { self@.len() }
    fn vx_len(&self) -> (r: usize) { self.len() }
}
/// the text between delimiters of one byte each, `a` at the front and one at the end
pub open spec fn body(s: Name, a: int) -> Name { s.subrange(a, s.len() - 1) }
pub open spec fn one_byte(c: char) -> bool { c as u32 <= 0x7f }
pub trait VxIndex<R> {
    type Out: ?Sized;
    spec fn can_index(&self, r: R) -> bool;
    fn vx_index(&self, r: R) -> &Self::Out requires self.can_index(r);
}
impl VxIndex<Range<usize>> for str {
    type Out = str;
    open spec fn can_index(&self, r: Range<usize>) -> bool {
        r.end + 1 == encode_utf8(self@).len() && r.start + 1 <= self@.len() && one_byte(self@.last())
            && forall |i: int| 0 <= i < r.start ==> one_byte(#[trigger] self@[i])
    }
    #[verifier::external_body]
    fn vx_index(&self, r: Range<usize>) -> (o: &str)
        ensures o@ == body(self@, r.start as int),
    { unimplemented!() }
}
/// TRUSTED: text without the spaces around it
pub uninterp spec fn trimmed(s: Name) -> Name;
pub trait VxTrim { fn vx_trim(&self) -> &str; }
impl VxTrim for str {
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self@), { unimplemented!() }
}
impl VxIndex<RangeFrom<usize>> for str {
    type Out = str;
    open spec fn can_index(&self, r: RangeFrom<usize>) -> bool {
        r.start <= self@.len() && forall |i: int| 0 <= i < r.start ==> one_byte(#[trigger] self@[i])
    }
    #[verifier::external_body]
    fn vx_index(&self, r: RangeFrom<usize>) -> (o: &str)
        ensures o@ == self@.skip(r.start as int),
    { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
//@item meta ParseRule
// ---------------------------------------------------------------- what grammar.pest gives
pub open spec fn is_pre(r: Rule) -> bool { r is positive_predicate_operator || r is negative_predicate_operator }
pub open spec fn is_post(r: Rule) -> bool { r is optional_operator || r is tilde_operator || r is caret_operator || r is repeat_operator || r is repeat_once_operator || r is bounded_repeat }
pub open spec fn is_leaf(r: Rule) -> bool { r is path || r is string || r is raw_string || r is insensitive_string || r is range }
pub open spec fn is_infix(r: Rule) -> bool { r is sequence_operator || r is tilde_operator || r is caret_operator || r is choice_operator }
/// how many predicate operators there are at the front
pub open spec fn pre(k: Seq<Tree>, i: int) -> int
    decreases k.len() - i,
{ if 0 <= i < k.len() && is_pre(k[i].rule) { pre(k, i + 1) } else { i } }
/// the operand of a term and the first operator behind it
pub open spec fn core(k: Seq<Tree>) -> int { let p = pre(k, 0); if p < k.len() && k[p].rule is opening_paren { p + 1 } else { p } }
pub open spec fn post(k: Seq<Tree>) -> int { let p = pre(k, 0); if p < k.len() && k[p].rule is opening_paren { p + 3 } else { p + 1 } }
pub open spec fn term_shape(k: Seq<Tree>) -> bool {
    let p = pre(k, 0);
    post(k) <= k.len() && (if k[p].rule is opening_paren { k[p + 1].rule is expression && k[p + 2].rule is closing_paren } else { is_leaf(k[p].rule) })
        && forall |i: int| post(k) <= i < k.len() ==> is_post((#[trigger] k[i]).rule)
}
/// where the operands of an expression begin (a leading choice operator says nothing)
pub open spec fn lead(k: Seq<Tree>) -> int { if k.len() > 0 && k[0].rule is choice_operator { 1 } else { 0 } }
pub open spec fn expr_shape(k: Seq<Tree>) -> bool {
    let n = lead(k);
    (k.len() - n) % 2 == 1 && forall |i: int| n <= i < k.len() ==> if (i - n) % 2 == 0 { (#[trigger] k[i]).rule is term } else { is_infix(k[i].rule) }
}
/// how many of the pairs of a path are names and the separators between
pub open spec fn named(k: Seq<Tree>) -> int { if k.len() > 0 && (k.last().rule is call || k.last().rule is slice) { k.len() - 1 } else { k.len() as int } }
pub open spec fn path_shape(k: Seq<Tree>) -> bool {
    named(k) % 2 == 1 && forall |i: int| 0 <= i < named(k) ==> if i % 2 == 0 { (#[trigger] k[i]).rule is identifier } else { k[i].rule is ancestry_operator }
}
pub open spec fn call_shape(k: Seq<Tree>) -> bool {
    k.len() >= 2 && k[0].rule is opening_paren && k.last().rule is closing_paren
        && forall |i: int| 1 <= i < k.len() - 1 ==> if i % 2 == 1 { (#[trigger] k[i]).rule is expression } else { k[i].rule is comma }
}
/// how many comments there are before a rule
pub open spec fn docs(k: Seq<Tree>, i: int) -> int
    decreases k.len() - i,
{ if 0 <= i < k.len() && k[i].rule is rule_doc { docs(k, i + 1) } else { i } }
/// where the assignment operator of a rule stands, and its expression
pub open spec fn assigned(k: Seq<Tree>) -> int { let n = docs(k, 0) + 1; if n < k.len() && k[n].rule is arguments { n + 1 } else { n } }
pub open spec fn is_silent(k: Seq<Tree>) -> bool { k[assigned(k) + 1].rule is silent_modifier }
pub open spec fn open_at(k: Seq<Tree>) -> int { if is_silent(k) { assigned(k) + 2 } else { assigned(k) + 1 } }
pub open spec fn expr_at(k: Seq<Tree>) -> int { if k[open_at(k)].rule is opening_brace { open_at(k) + 1 } else { open_at(k) } }
pub open spec fn rule_shape(k: Seq<Tree>) -> bool {
    let n = assigned(k);
    0 <= n < k.len() - 1 && k[n].rule is assignment_operator && open_at(k) < k.len() && expr_at(k) < k.len() && k[expr_at(k)].rule is expression
}
pub open spec fn idents(s: Seq<Tree>) -> Seq<Name>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if s.last().rule is identifier { idents(s.drop_last()).push(s.last().text) } else { idents(s.drop_last()) } }
pub open spec fn params(k: Seq<Tree>) -> Seq<Name> { if k[docs(k, 0) + 1].rule is arguments { idents(k[docs(k, 0) + 1].kids) } else { seq![] } }
pub open spec fn is_number(r: Rule) -> bool { r is number || r is integer }
/// the pairs of bounds, after the opening bracket
pub open spec fn range_shape(k: Seq<Tree>) -> bool {
    ||| k.len() == 5 && is_number(k[1].rule) && k[2].rule is range_operator && is_number(k[3].rule) && !is_number(k[4].rule)
    ||| k.len() == 4 && is_number(k[1].rule) && k[2].rule is range_operator && !is_number(k[3].rule) && !(k[3].rule is range_operator)
    ||| k.len() == 4 && k[1].rule is range_operator && is_number(k[2].rule) && !is_number(k[3].rule) && !(k[3].rule is range_operator)
    ||| k.len() == 3 && k[1].rule is range_operator && !is_number(k[2].rule) && !(k[2].rule is range_operator)
    ||| k.len() == 3 && is_number(k[1].rule) && !is_number(k[2].rule) && !(k[2].rule is range_operator)
}
/// delimiters of one byte each, and no signs in the escapes
pub open spec fn delimited(s: Name, a: int) -> bool {
    s.len() > a && one_byte(s.last()) && (forall |i: int| 0 <= i < a ==> one_byte(#[trigger] s[i])) && unsigned(body(s, a))
}
pub open spec fn local_shape(t: Tree) -> bool {
    match t.rule {
        Rule::term => term_shape(t.kids),
        Rule::expression => expr_shape(t.kids),
        Rule::path => path_shape(t.kids),
        Rule::call => call_shape(t.kids),
        Rule::slice | Rule::bounded_repeat => range_shape(t.kids),
        Rule::string => delimited(t.text, 1),
        Rule::character => delimited(t.text, 1) && t.text.len() > 2,
        Rule::insensitive_string => delimited(t.text, 2),
        Rule::raw_string => exists |i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).rule is inner_raw_str,
        Rule::assignment_operator => t.kids.len() == 0,
        Rule::grammar_rule => rule_shape(t.kids),
        Rule::rule_doc | Rule::grammar_doc => t.text.len() >= 3 && one_byte(t.text[0]) && one_byte(t.text[1]) && one_byte(t.text[2]),
        Rule::range => t.kids.len() == 3 && t.kids[0].rule is character && t.kids[2].rule is character,
        _ => true,
    }
}
/// TRUSTED: the pairs that the parser of grammar.pest gives are of this shape
pub open spec fn shaped(t: Tree) -> bool
    decreases t,
{ local_shape(t) && forall |i: int| 0 <= i < t.kids.len() ==> shaped(#[trigger] t.kids[i]) }
// ---------------------------------------------------------------- what it means
/// choices bind least; sequences, whatever the trivia, more; both to the right
pub open spec fn the_table() -> Table { seq![seq![(Rule::choice_operator, true)], seq![(Rule::sequence_operator, true), (Rule::tilde_operator, true), (Rule::caret_operator, true)]] }
pub open spec fn bounds<F>(k: Seq<Tree>) -> Option<(Option<F>, Option<F>)> {
    if k.len() == 5 { match (parsed::<F>(k[1].text), parsed::<F>(k[3].text)) { (Some(a), Some(b)) => Some((Some(a), Some(b))), _ => None } }
    else if k.len() == 4 && k[2].rule is range_operator { match parsed::<F>(k[1].text) { Some(a) => Some((Some(a), None)), None => None } }
    else if k.len() == 4 { match parsed::<F>(k[2].text) { Some(b) => Some((None, Some(b))), None => None } }
    else if k[1].rule is range_operator { Some((None, None)) }
    else { match parsed::<F>(k[1].text) { Some(a) => Some((Some(a), Some(a))), None => None } }
}
pub open spec fn void(b: (Option<usize>, Option<usize>)) -> bool {
    b.1 == Some(0usize) || match b { (Some(a), Some(e)) => a > e, _ => false }
}
/// a literal or a number that means nothing
pub open spec fn local_bad(t: Tree) -> bool {
    match t.rule {
        Rule::string | Rule::character => decode(body(t.text, 1)) is None,
        Rule::insensitive_string => decode(body(t.text, 2)) is None,
        Rule::slice => bounds::<isize>(t.kids) is None,
        Rule::bounded_repeat => match bounds::<usize>(t.kids) { None => true, Some(b) => void(b) },
        _ => false,
    }
}
pub open spec fn bad(t: Tree) -> bool
    decreases t,
{ local_bad(t) || exists |i: int| 0 <= i < t.kids.len() && bad(#[trigger] t.kids[i]) }
pub open spec fn strings(v: Seq<String>) -> Seq<Name> { v.map_values(|s: String| s@) }
pub open spec fn path_names(k: Seq<Tree>) -> Seq<Name> { Seq::new(((named(k) + 1) / 2) as nat, |i: int| k[2 * i].text) }
pub open spec fn is_prange<F>(r: PRange<F>, b: Option<(Option<F>, Option<F>)>) -> bool { b == Some((r.start, r.end)) }
pub open spec fn reads_args(t: Tree, a: Option<PathArgs>) -> bool
    decreases t, 0int, 2int,
{
    let k = t.kids;
    if named(k) == k.len() { a is None } else if k.last().rule is slice { a matches Some(PathArgs::Slice(r)) && is_prange(r, bounds::<isize>(k.last().kids)) }
    else {
        a matches Some(PathArgs::Call(v)) && v@.len() == (k.last().kids.len() - 1) / 2
            && forall |i: int| 0 <= i < v@.len() ==> reads(#[trigger] k.last().kids[1 + 2 * i], v@[i].expr)
    }
}
pub open spec fn one_char(t: Tree, a: char) -> bool { decode(body(t.text, 1)) matches Some(s) && s.len() > 0 && s[0] == a }
pub open spec fn reads_range(c: Tree, e: ParseExpr) -> bool { e matches ParseExpr::Range(a, b) && one_char(c.kids[0], a) && one_char(c.kids[2], b) }
pub open spec fn reads_raw(c: Tree, e: ParseExpr) -> bool {
    e matches ParseExpr::Str(s) && exists |i: int| 0 <= i < c.kids.len() && (#[trigger] c.kids[i]).rule is inner_raw_str && s@ == c.kids[i].text && forall |j: int| 0 <= j < i ==> !((#[trigger] c.kids[j]).rule is inner_raw_str)
}
/// the expression that a term says, without its operators
pub open spec fn reads_core(t: Tree, e: ParseExpr) -> bool
    decreases t, 0int, 3int,
{
    let c = t.kids[core(t.kids)];
    0 <= core(t.kids) < t.kids.len() && match c.rule {
        Rule::expression => reads(c, e),
        Rule::path => e matches ParseExpr::Path(p, a) && strings(p@) == path_names(c.kids) && reads_args(c, a),
        Rule::string => e matches ParseExpr::Str(s) && decode(body(c.text, 1)) == Some(s@),
        Rule::insensitive_string => e matches ParseExpr::Insens(s) && decode(body(c.text, 2)) == Some(s@),
        Rule::raw_string => reads_raw(c, e),
        Rule::range => reads_range(c, e),
        _ => false,
    }
}
/// what one operator behind an operand makes of it
pub open spec fn posts(o: Tree, n: ParseExpr, e: ParseExpr) -> bool {
    match o.rule {
        Rule::optional_operator => e matches ParseExpr::Opt(x) && x.expr == n,
        Rule::tilde_operator => e matches ParseExpr::Separated(x, t) && x.expr == n && t is Optional,
        Rule::caret_operator => e matches ParseExpr::Separated(x, t) && x.expr == n && t is Mandatory,
        Rule::repeat_operator => e matches ParseExpr::Rep(x) && x.expr == n,
        Rule::repeat_once_operator => e matches ParseExpr::RepOnce(x) && x.expr == n,
        Rule::bounded_repeat => e matches ParseExpr::RepRange(x, r) && x.expr == n && is_prange(r, bounds::<usize>(o.kids)),
        _ => false,
    }
}
pub open spec fn prefs(o: Tree, n: ParseExpr, e: ParseExpr) -> bool {
    match o.rule {
        Rule::positive_predicate_operator => e matches ParseExpr::PosPred(x) && x.expr == n,
        Rule::negative_predicate_operator => e matches ParseExpr::NegPred(x) && x.expr == n,
        _ => false,
    }
}
pub open spec fn inner_of(e: ParseExpr) -> ParseExpr {
    match e {
        ParseExpr::Opt(x) | ParseExpr::Separated(x, _) | ParseExpr::Rep(x) | ParseExpr::RepOnce(x) | ParseExpr::RepRange(x, _) | ParseExpr::PosPred(x) | ParseExpr::NegPred(x) => x.expr,
        _ => e,
    }
}
/// the operand with the operators behind it up to place `n`: the nearest applies first
pub open spec fn reads_post(t: Tree, n: int, e: ParseExpr) -> bool
    decreases t, 1int, n,
{
    if n <= 0 || n <= post(t.kids) || n > t.kids.len() { reads_core(t, e) } else { posts(t.kids[n - 1], inner_of(e), e) && reads_post(t, n - 1, inner_of(e)) }
}
/// and the operators before it from place `m` on
pub open spec fn reads_pre(t: Tree, m: int, e: ParseExpr) -> bool
    decreases t, 2int, t.kids.len() - m,
{
    if m >= pre(t.kids, 0) || m < 0 || m >= t.kids.len() { reads_post(t, t.kids.len() as int, e) } else { prefs(t.kids[m], inner_of(e), e) && reads_pre(t, m + 1, inner_of(e)) }
}
pub open spec fn joins(o: Tree, a: ParseExpr, b: ParseExpr, e: ParseExpr) -> bool {
    match o.rule {
        Rule::sequence_operator => e matches ParseExpr::Seq(x, y, t) && x.expr == a && y.expr == b && t is None,
        Rule::tilde_operator => e matches ParseExpr::Seq(x, y, t) && x.expr == a && y.expr == b && t is Optional,
        Rule::caret_operator => e matches ParseExpr::Seq(x, y, t) && x.expr == a && y.expr == b && t is Mandatory,
        Rule::choice_operator => e matches ParseExpr::Choice(x, y) && x.expr == a && y.expr == b,
        _ => false,
    }
}
pub open spec fn left_of(e: ParseExpr) -> ParseExpr { match e { ParseExpr::Seq(x, _, _) | ParseExpr::Choice(x, _) => x.expr, _ => e } }
pub open spec fn right_of(e: ParseExpr) -> ParseExpr { match e { ParseExpr::Seq(_, y, _) | ParseExpr::Choice(_, y) => y.expr, _ => e } }
/// the operands of `t` from place `i` to place `j` with the operators between them
pub open spec fn reads_items(t: Tree, i: int, j: int, e: ParseExpr) -> bool
    decreases t, 3int, j - i,
{
    if 0 <= i < j <= t.kids.len() {
        let k = i + root(the_table(), t.kids.subrange(i, j));
        if j - i <= 1 || !(i < k < j - 1) { reads_pre(t.kids[i], 0, e) }
        else { joins(t.kids[k], left_of(e), right_of(e), e) && reads_items(t, i, k, left_of(e)) && reads_items(t, k + 1, j, right_of(e)) }
    } else { false }
}
/// what an expression says
pub open spec fn reads(t: Tree, e: ParseExpr) -> bool
    decreases t, 4int, 0int,
{ reads_items(t, lead(t.kids), t.kids.len() as int, e) }
//@free meta skip
    ensures
        final(pairs)@ == (if old(pairs)@.len() > 0 && old(pairs)@[0].rule == rule { old(pairs)@.skip(1) } else { old(pairs)@ }),
//@end
//@free meta pair_to
    ensures
        match r { Ok(x) => parsed::<F>(pair@.text) == Some(x), Err(_) => parsed::<F>(pair@.text) is None },
//@end
//@free meta parse_string
    requires local_shape(pair@), pair@.rule is string,
    ensures
        r is Err == local_bad(pair@), r matches Ok(n) ==> (n.expr matches ParseExpr::Str(s) && decode(body(pair@.text, 1)) == Some(s@)),
//@start
broadcast use lit::lemma_len;
//@end
//@free meta string_content
    requires local_shape(pair@), pair@.rule is string,
    ensures
        r is Err == local_bad(pair@), r matches Ok(s) ==> decode(body(pair@.text, 1)) == Some(s@),
//@start
broadcast use lit::lemma_len;
//@end
//@free meta parse_insensitive_string
    requires local_shape(pair@), pair@.rule is insensitive_string,
    ensures
        r is Err == local_bad(pair@), r matches Ok(n) ==> (n.expr matches ParseExpr::Insens(s) && decode(body(pair@.text, 2)) == Some(s@)),
//@start
broadcast use lit::lemma_len;
//@end
//@free meta parse_raw_string
    requires local_shape(pair@), pair@.rule is raw_string,
    ensures reads_raw(pair@, r.expr),
//@end
pub mod tree {
    use super::*;
    pub broadcast proof fn kid(t: Tree, i: int)
        requires shaped(t), 0 <= i < t.kids.len(),
        ensures #![trigger shaped(t), t.kids[i]] shaped(t.kids[i]), local_shape(t.kids[i]), bad(t.kids[i]) ==> bad(t), local_bad(t.kids[i]) ==> bad(t.kids[i]),
    { }
    pub broadcast proof fn top(t: Tree)
        requires shaped(t),
        ensures #![trigger shaped(t)] local_shape(t), local_bad(t) ==> bad(t),
    { }
    pub broadcast proof fn shapes(t: Tree)
        requires shaped(t),
        ensures #![trigger shaped(t)]
            t.rule is path ==> path_shape(t.kids), t.rule is call ==> call_shape(t.kids), t.rule is slice ==> range_shape(t.kids),
            t.rule is term ==> term_shape(t.kids), t.rule is expression ==> expr_shape(t.kids),
            t.rule is slice && bounds::<isize>(t.kids) is None ==> bad(t),
    { }
    pub broadcast proof fn below(t: Tree, i: int)
        requires shaped(t), 0 <= i < t.kids.len(),
        ensures #![trigger shaped(t), t.kids[i]] shaped(t.kids[i]), bad(t.kids[i]) ==> bad(t),
    { }
    pub broadcast proof fn nonempty(s: Name)
        requires s.len() > 0, decode(s) is Some,
        ensures #![trigger decode(s)] decode(s)->0.len() > 0,
    { }
}
pub open spec fn chr(t: Tree, c: Tree) -> bool {
    delimited(c.text, 1) && match decode(body(c.text, 1)) { None => bad(t), Some(s) => s.len() > 0 }
}
pub proof fn range_kids(t: Tree)
    requires shaped(t), t.rule is range,
    ensures t.kids.len() == 3, chr(t, t.kids[0]), chr(t, t.kids[2]),
{
    reveal_with_fuel(shaped, 3);
    reveal_with_fuel(bad, 3);
    let (a, b) = (t.kids[0], t.kids[2]);
    if decode(body(a.text, 1)) is Some { tree::nonempty(body(a.text, 1)); }
    if decode(body(b.text, 1)) is Some { tree::nonempty(body(b.text, 1)); }
}
//@free meta parse_char_range
    requires shaped(pair@), pair@.rule is range,
    ensures
        r is Err ==> bad(pair@), r matches Ok(n) ==> reads_range(pair@, n.expr),
//@start
hide(shaped); hide(bad); hide(decode); hide(body); hide(unsigned);
broadcast use lit::lemma_len;
proof { range_kids(pair@); }
//@end
pub fn vx_collect<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v, { v }
/// the numbers among the pairs, in order
pub open spec fn nums<F>(s: Seq<Tree>) -> Option<Seq<F>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match nums::<F>(s.drop_last()) {
            None => None,
            Some(v) => if !is_number(s.last().rule) { Some(v) } else { match parsed::<F>(s.last().text) { Some(x) => Some(v.push(x)), None => None } },
        }
    }
}
pub proof fn nums_step<F>(s: Seq<Tree>, i: int)
    requires 0 <= i < s.len(),
    ensures
        nums::<F>(s.take(0)) == Some(Seq::<F>::empty()), s.take(s.len() as int) == s,
        nums::<F>(s.take(i + 1)) == (match nums::<F>(s.take(i)) { None => None, Some(v) => if !is_number(s[i].rule) { Some(v) } else { match parsed::<F>(s[i].text) { Some(x) => Some(v.push(x)), None => None } } }),
        nums::<F>(s.take(i + 1)) is None ==> nums::<F>(s) is None,
    decreases s.len() - i,
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(s.len() as int) =~= s);
    if i + 1 < s.len() { nums_step::<F>(s, i + 1); }
}
pub proof fn nums_all<F>(k: Seq<Tree>)
    requires range_shape(k),
    ensures match nums::<F>(k.skip(1)) {
        None => bounds::<F>(k) is None,
        Some(v) => v =~= (match bounds::<F>(k) { Some((Some(a), Some(b))) => if k.len() == 5 { seq![a, b] } else { seq![a] }, Some((Some(a), None)) => seq![a], Some((None, Some(b))) => seq![b], _ => seq![] })
            && bounds::<F>(k) is Some,
    }
{
    reveal_with_fuel(nums, 6);
    let s = k.skip(1);
    let z = s.drop_last();
    assert(s.last() == k.last());
    assert(forall |i: int| 0 <= i < s.len() ==> s[i] == k[i + 1]);
    if k.len() == 5 { assert(z.drop_last().drop_last().drop_last() =~= Seq::empty()); }
}
//@free meta parse_range
    requires range_shape(old(pairs)@),
    ensures
        r is Err == (bounds::<F>(old(pairs)@) is None), r matches Ok(x) ==> is_prange(x, bounds::<F>(old(pairs)@)),
//@noiso
//@start
let ghost k0 = pairs@;
let ghost s0 = pairs@.skip(1);
proof { nums_all::<F>(k0); nums_step::<F>(s0, 0); }
//@loop 0
    invariant
        views(it0.seq()) == s0, vx_out0@.len() == it0.index@,
        forall |i: int| 0 <= i < it0.index@ ==> #[trigger] vx_out0@[i] == s0[i].rule,
//@loopstart 0
proof { assert(views(it0.seq())[it0.index@ as int] == it0.seq()[it0.index@ as int]@); }
//@loop 1
    invariant_except_break
        vx_err2 is None, nums::<F>(s0.take(it1.index@ as int)) == Some(vx_out1@),
    invariant
        views(it1.seq()) == s0,
    ensures
        vx_err2 is None ==> nums::<F>(s0) == Some(vx_out1@), vx_err2 is Some ==> nums::<F>(s0) is None,
//@loopstart 1
proof { assert(views(it1.seq())[it1.index@ as int] == it1.seq()[it1.index@ as int]@); nums_step::<F>(s0, it1.index@ as int); }
//@end
//@free meta parse_bounded_repeat
    requires local_shape(pair@), pair@.rule is bounded_repeat,
    ensures
        r is Err == local_bad(pair@), r matches Ok(e) ==> posts(pair@, child.expr, e),
//@end
//@open meta impl Span
//@fn start
    ensures r.start == start, r.end == self.end,
//@end
//@fn end
    ensures r.start == self.start, r.end == end,
//@end
//@fn start_end
    ensures r.start == start, r.end == end,
//@end
//@fn from_pest
    ensures r.start == span.first(), r.end == span.past(),
//@end
//@fn union
    ensures r.start == self.start, r.end == other.end,
//@end
//@close
//@free meta parse_postfix
    requires local_shape(pair@), is_post(pair@.rule),
    ensures
        r is Err == local_bad(pair@), r matches Ok(n) ==> posts(pair@, child.expr, n.expr),
//@end
//@free meta parse_prefix
    requires is_pre(pair@.rule),
    ensures prefs(pair@, child.expr, r.expr),
//@end
pub open spec fn reads_list(c: Tree, v: Seq<ParseNode>) -> bool { forall |i: int| 0 <= i < v.len() ==> reads(#[trigger] c.kids[1 + 2 * i], v[i].expr) }
pub open spec fn skipped(s: Seq<Tree>, rule: Rule) -> Seq<Tree> { if s.len() > 0 && s[0].rule == rule { s.skip(1) } else { s } }
/// where the pairs of a path stand after `m` names, and those of a call after `m` arguments
pub open spec fn at_name(k: Seq<Tree>, m: nat) -> int { if 2 * m > named(k) { named(k) } else { 2 * m as int } }
pub open spec fn at_arg(k: Seq<Tree>, m: nat) -> int { if 2 * m >= k.len() - 1 { k.len() - 1 } else { 2 * m as int + 1 } }
pub open spec fn name_facts(k: Seq<Tree>, m: nat) -> bool {
        let rest = k.skip(at_name(k, m));
        &&& (rest.len() > 0 && rest[0].rule is identifier) == (at_name(k, m) < named(k))
        &&& at_name(k, m) < named(k) ==> 2 * (m + 1) <= named(k) + 1 && path_names(k).take((m + 1) as int) == path_names(k).take(m as int).push(rest[0].text)
                && skipped(rest.skip(1), Rule::ancestry_operator) == k.skip(at_name(k, m + 1))
        &&& at_name(k, m) >= named(k) ==> path_names(k).take(m as int) == path_names(k) && (rest.len() == 0) == (named(k) == k.len()) && (rest.len() > 0 ==> rest[0] == k.last() && (k.last().rule is call || k.last().rule is slice))
}
#[verifier::spinoff_prover]
pub proof fn path_step(k: Seq<Tree>, m: nat)
    requires path_shape(k), 2 * m <= named(k) + 1,
    ensures name_facts(k, m), k.skip(at_name(k, 0)) == k, path_names(k).take(0) == Seq::<Name>::empty(),
{
    let (p, n) = (at_name(k, m), named(k));
    let rest = k.skip(p);
    assert(k.skip(0) =~= k);
    assert(path_names(k).take(0) =~= Seq::empty());
    if p < n {
        assert(p % 2 == 0);
        assert(k[p].rule is identifier && rest[0] == k[p]);
        assert(rest.skip(1) =~= k.skip(p + 1));
        if p + 1 < n { assert((p + 1) % 2 == 1); assert(k[p + 1].rule is ancestry_operator); assert(k.skip(p + 1).skip(1) =~= k.skip(p + 2)); }
        assert(path_names(k).take((m + 1) as int) =~= path_names(k).take(m as int).push(rest[0].text));
    } else {
        assert(path_names(k).take(m as int) =~= path_names(k));
    }
}
pub open spec fn arg_facts(k: Seq<Tree>, m: nat) -> bool {
        let rest = k.skip(at_arg(k, m));
        &&& (rest.len() > 0 && rest[0].rule is expression) == (at_arg(k, m) < k.len() - 1)
        &&& at_arg(k, m) < k.len() - 1 ==> 2 * (m + 1) <= k.len() - 1 && at_arg(k, m) == 2 * m + 1 && rest[0] == k[1 + 2 * m as int] && skipped(rest.skip(1), Rule::comma) == k.skip(at_arg(k, m + 1))
        &&& at_arg(k, m) >= k.len() - 1 ==> m == (k.len() - 1) / 2
}
pub proof fn call_step(k: Seq<Tree>, m: nat)
    requires call_shape(k), m == 0 || 2 * m <= k.len() - 1,
    ensures k.len() >= 2, arg_facts(k, m), k.skip(at_arg(k, 0)) == k.skip(1),
{
    let p = at_arg(k, m);
    let rest = k.skip(p);
    if p < k.len() - 1 {
        assert(p % 2 == 1);
        assert(k[p].rule is expression && rest[0] == k[p]);
        assert(rest.skip(1) =~= k.skip(p + 1));
        if p + 1 < k.len() - 1 { assert((p + 1) % 2 == 0); assert(k[p + 1].rule is comma); assert(k.skip(p + 1).skip(1) =~= k.skip(p + 2)); }
    }
}
//@free meta parse_path_raw
    requires shaped(pair@), pair@.rule is path, named(pair@.kids) == pair@.kids.len() || pair@.kids.last().rule is slice || pratt_parser@ == the_table(),
    ensures
        r is Err ==> bad(pair@), r matches Ok((p, a)) ==> strings(p@) == path_names(pair@.kids) && reads_args(pair@, a),
    decreases pair@, 1int,
//@noiso
//@start
hide(shaped); hide(bad); hide(bounds); hide(path_shape); hide(call_shape); hide(range_shape); hide(at_name); hide(at_arg); hide(path_names);
broadcast use {tree::below, tree::shapes};
let ghost k = pair@.kids;
let ghost t0 = pair@;
proof { path_step(k, 0); assert(k.len() > 0 ==> k.last() == k[k.len() - 1]); if named(k) < k.len() && k.last().rule is call { call_step(k.last().kids, 0); } }
//@loop 0
    invariant
        path@.len() * 2 <= named(k) + 1, strings(path@) =~= path_names(k).take(path@.len() as int),
        pairs@ == k.skip(at_name(k, path@.len())), name_facts(k, path@.len()),
    decreases pairs@.len(),
//@loopend 0
proof { path_step(k, path@.len()); }
//@loop 1
    invariant
        2 * args@.len() <= k.last().kids.len() - 1,
        pairs@ == k.last().kids.skip(at_arg(k.last().kids, args@.len())),
        reads_list(k.last(), args@), arg_facts(k.last().kids, args@.len()),
    decreases pairs@.len(),
//@loopstart 1
let ghost a0 = args@;
//@loopend 1
proof { assert(forall |i: int| 0 <= i < a0.len() ==> args@[i] == a0[i]); call_step(k.last().kids, args@.len()); }
//@end
//@free meta parse_path
    requires shaped(pair@), pair@.rule is path, pratt_parser@ == the_table(),
    ensures
        r is Err ==> bad(pair@),
        r matches Ok(n) ==> (n.expr matches ParseExpr::Path(p, a) && strings(p@) == path_names(pair@.kids) && reads_args(pair@, a)),
    decreases pair@, 2int,
//@end
pub trait VxRevIter: Sized { type Out; fn vx_rev(self) -> Self::Out; }
impl<T> VxRevIter for std::vec::IntoIter<T> {
    type Out = std::vec::IntoIter<T>;
    #[verifier::external_body]
    fn vx_rev(self) -> (r: std::vec::IntoIter<T>)
        ensures r.remaining() == self.remaining().reverse(), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
    { unimplemented!() }
}
pub proof fn pre_facts(k: Seq<Tree>, i: int)
    requires 0 <= i <= k.len(),
    ensures i <= pre(k, i) <= k.len(), forall |j: int| i <= j < pre(k, i) ==> is_pre((#[trigger] k[j]).rule), pre(k, i) < k.len() ==> !is_pre(k[pre(k, i)].rule),
    decreases k.len() - i,
{ if i < k.len() && is_pre(k[i].rule) { pre_facts(k, i + 1); } }
/// what the pairs of a term are, by place
pub proof fn term_at(t: Tree, i: int)
    requires term_shape(t.kids), 0 <= i < t.kids.len(),
    ensures
        0 <= pre(t.kids, 0) <= core(t.kids) < post(t.kids) <= t.kids.len(),
        i < pre(t.kids, 0) ==> is_pre(t.kids[i].rule),
        i >= post(t.kids) ==> is_post(t.kids[i].rule),
        i == core(t.kids) ==> is_leaf(t.kids[i].rule) || t.kids[i].rule is expression,
        pre(t.kids, 0) <= i < post(t.kids) && i != core(t.kids) ==> t.kids[i].rule is opening_paren || t.kids[i].rule is closing_paren,
{ pre_facts(t.kids, 0); }
/// the operators before and behind met so far, and the operand if it was met
pub open spec fn sorted(t: Tree, i: int, a: Seq<Pair<'_, Rule>>, b: Seq<Pair<'_, Rule>>, o: Option<ParseNode>) -> bool {
    views(a) == t.kids.take(if i < pre(t.kids, 0) { i } else { pre(t.kids, 0) })
        && views(b) == t.kids.subrange(post(t.kids), if i < post(t.kids) { post(t.kids) } else { i })
        && (i > core(t.kids) ==> o is Some && reads_core(t, o->0.expr))
}
pub proof fn views_push(a: Seq<Pair<'_, Rule>>, x: Pair<'_, Rule>)
    ensures views(a.push(x)) == views(a).push(x@),
{ assert(views(a.push(x)) =~= views(a).push(x@)); }
pub proof fn term_start(t: Tree, a: Seq<Pair<'_, Rule>>)
    requires term_shape(t.kids), a.len() == 0,
    ensures
        0 <= pre(t.kids, 0) <= core(t.kids) < post(t.kids) <= t.kids.len(), sorted(t, 0, a, a, None),
        !(t.kids[core(t.kids)].rule is expression) || t.kids[core(t.kids)].rule is expression,
{ pre_facts(t.kids, 0); assert(views(a) =~= t.kids.take(0)); assert(views(a) =~= t.kids.subrange(post(t.kids), post(t.kids))); }
pub proof fn sorted_step(t: Tree, i: int, a: Seq<Pair<'_, Rule>>, b: Seq<Pair<'_, Rule>>, o: Option<ParseNode>, x: Pair<'_, Rule>)
    requires term_shape(t.kids), 0 <= i < t.kids.len(), sorted(t, i, a, b, o), x@ == t.kids[i],
    ensures
        is_pre(x@.rule) || is_post(x@.rule) || x@.rule is opening_paren || x@.rule is closing_paren || is_leaf(x@.rule) || x@.rule is expression,
        is_pre(x@.rule) ==> sorted(t, i + 1, a.push(x), b, o),
        is_post(x@.rule) ==> sorted(t, i + 1, a, b.push(x), o),
        x@.rule is opening_paren || x@.rule is closing_paren ==> sorted(t, i + 1, a, b, o),
        is_leaf(x@.rule) || x@.rule is expression ==> i == core(t.kids) && forall |n: ParseNode| #![trigger sorted(t, i + 1, a, b, Some(n))] reads_core(t, n.expr) ==> sorted(t, i + 1, a, b, Some(n)),
{
    term_at(t, i);
    let k = t.kids;
    views_push(a, x); views_push(b, x);
    if i < pre(k, 0) { assert(views(a.push(x)) =~= k.take(i + 1)); assert(k.subrange(post(k), post(k)) =~= Seq::empty()); }
    if i >= post(k) { assert(views(b.push(x)) =~= k.subrange(post(k), i + 1)); }
}
pub proof fn kinds()
    ensures
        forall |r: Rule| #[trigger] is_post(r) == (r is optional_operator || r is tilde_operator || r is caret_operator || r is repeat_operator || r is repeat_once_operator || r is bounded_repeat),
        forall |r: Rule| #[trigger] is_pre(r) == (r is positive_predicate_operator || r is negative_predicate_operator),
        forall |r: Rule| #[trigger] is_leaf(r) == (r is path || r is string || r is raw_string || r is insensitive_string || r is range),
{ }
/// with `j` of the operators behind, and with `j` of those before and all behind
pub closed spec fn upto_post(t: Tree, j: int, e: ParseExpr) -> bool { reads_post(t, post(t.kids) + j, e) }
pub closed spec fn from_pre(t: Tree, j: int, e: ParseExpr) -> bool { reads_pre(t, pre(t.kids, 0) - j, e) }
pub mod term {
    use super::*;
    pub broadcast proof fn post_none(t: Tree, j: int, e: ParseExpr)
        requires j == 0, reads_core(t, e),
        ensures #[trigger] upto_post(t, j, e),
    { }
    pub broadcast proof fn pre_none(t: Tree, j: int, e: ParseExpr)
        requires j == 0, upto_post(t, t.kids.len() - post(t.kids), e),
        ensures #[trigger] from_pre(t, j, e),
    { }
}
pub proof fn pre_all(t: Tree, e: ParseExpr)
    ensures from_pre(t, pre(t.kids, 0), e) == reads_pre(t, 0, e),
{ }
pub proof fn post_step(t: Tree, j: int, c: ParseExpr, e: ParseExpr)
    requires 0 <= j, term_shape(t.kids), post(t.kids) + j < t.kids.len(), posts(t.kids[post(t.kids) + j], c, e), upto_post(t, j, c),
    ensures upto_post(t, j + 1, e),
{ assert(inner_of(e) == c); term_at(t, 0); }
pub proof fn pre_step(t: Tree, j: int, c: ParseExpr, e: ParseExpr)
    requires 0 <= j < pre(t.kids, 0), term_shape(t.kids), prefs(t.kids[pre(t.kids, 0) - 1 - j], c, e), from_pre(t, j, c),
    ensures from_pre(t, j + 1, e),
{ assert(inner_of(e) == c); term_at(t, 0); }
pub proof fn term_kid(t: Tree, i: int)
    requires shaped(t), t.rule is term, 0 <= i < t.kids.len(),
    ensures shaped(t.kids[i]), local_shape(t.kids[i]), bad(t.kids[i]) ==> bad(t), local_bad(t.kids[i]) ==> bad(t), term_shape(t.kids),
{ tree::kid(t, i); tree::top(t.kids[i]); tree::top(t); }
pub proof fn term_ends(t: Tree)
    requires shaped(t), t.rule is term,
    ensures
        forall |a: Seq<Pair<'_, Rule>>, b: Seq<Pair<'_, Rule>>, o: Option<ParseNode>, n: int| n == t.kids.len() && #[trigger] sorted(t, n, a, b, o)
            ==> o is Some && reads_core(t, o->0.expr) && views(a) == t.kids.take(pre(t.kids, 0)) && views(b) == t.kids.subrange(post(t.kids), t.kids.len() as int),
        forall |e: ParseExpr| #[trigger] from_pre(t, pre(t.kids, 0), e) ==> reads_pre(t, 0, e),
        0 <= pre(t.kids, 0) < post(t.kids) <= t.kids.len(), term_shape(t.kids),
        forall |a: Seq<Pair<'_, Rule>>, b: Seq<Pair<'_, Rule>>| a.len() == 0 && b.len() == 0 ==> #[trigger] sorted(t, 0, a, b, None),
{
    tree::shapes(t);
    term_start(t, Seq::empty());
    term_at(t, 0);
    assert forall |e: ParseExpr| #[trigger] from_pre(t, pre(t.kids, 0), e) implies reads_pre(t, 0, e) by { pre_all(t, e); }
    assert forall |a: Seq<Pair<'_, Rule>>, b: Seq<Pair<'_, Rule>>| a.len() == 0 && b.len() == 0 implies #[trigger] sorted(t, 0, a, b, None) by { term_start(t, a); assert(a =~= b); }
}
//@free meta parse_term
    requires shaped(pair@), pair@.rule is term, pratt_parser@ == the_table(),
    ensures r is Err ==> bad(pair@), r matches Ok(n) ==> reads_pre(pair@, 0, n.expr),
    decreases pair@, 3int,
//@noiso
//@start
hide(shaped); hide(bad); hide(term_shape); hide(pre); hide(core); hide(post); hide(path_names); hide(local_shape); hide(local_bad); hide(reads_post); hide(reads_pre); hide(posts); hide(prefs); hide(reads_items); hide(is_post); hide(is_pre); hide(is_leaf); hide(sorted);
broadcast use {term::post_none, term::pre_none};
let ghost t0 = pair@;
let ghost k = pair@.kids;
proof { term_ends(t0); kinds(); }
let ghost mut n0 = arbitrary::<ParseExpr>();
//@loop 0
    invariant
        views(it0.seq()) == k, sorted(t0, it0.index@ as int, prefix_pairs@, postfix_pairs@, expression),
//@loopstart 0
proof { assert(views(it0.seq())[it0.index@ as int] == pair@); term_kid(t0, it0.index@ as int); sorted_step(t0, it0.index@ as int, prefix_pairs@, postfix_pairs@, expression, pair); }
//@loop 1
    invariant
        views(it1.seq()) == k.subrange(post(k), k.len() as int),
        match vx_out0 { Ok(n) => upto_post(t0, it1.index@ as int, n.expr), Err(_) => bad(t0) },
//@loopstart 1
proof { n0 = vx_out0->Ok_0.expr; assert(views(it1.seq())[it1.index@ as int] == it1.seq()[it1.index@ as int]@); term_at(t0, post(k) + it1.index@); term_kid(t0, post(k) + it1.index@); }
//@loopend 1
proof { if vx_out0 is Ok { post_step(t0, it1.index@ as int, n0, vx_out0->Ok_0.expr); } }
//@loop 2
    invariant
        views(it2.seq()) == k.take(pre(k, 0)).reverse(),
        from_pre(t0, it2.index@ as int, vx_out1.expr),
//@loopstart 2
proof { n0 = vx_out1.expr; assert(views(it2.seq())[it2.index@ as int] == it2.seq()[it2.index@ as int]@); term_at(t0, pre(k, 0) - 1 - it2.index@); }
//@loopend 2
proof { pre_step(t0, it2.index@ as int, n0, vx_out1.expr); pre_all(t0, vx_out1.expr); }
//@end
// ---------------------------------------------------------------- operators
pub proof fn level_is(r: Rule)
    ensures (level(the_table(), r) is Some) == is_infix(r),
{
    let t = the_table();
    reveal_with_fuel(level, 4);
    reveal_with_fuel(in_level, 5);
    let (a, b) = (t[0], t[1]);
    assert(t.last() == b && t.drop_last().last() == a && t.drop_last().drop_last().len() == 0);
    assert(b.skip(1)[0] == b[1] && b.skip(1).skip(1)[0] == b[2]);
    assert(b.skip(1).skip(1).skip(1).len() == 0 && a.skip(1).len() == 0);
}
pub open spec fn sub(t: Tree, lo: int, hi: int) -> Seq<Tree> { t.kids.subrange(lo, hi) }
/// operands at the even places of a stretch, operators at the odd ones
pub open spec fn stretch(t: Tree, lo: int, hi: int) -> bool {
    0 <= lo < hi <= t.kids.len() && (hi - lo) % 2 == 1
}
pub open spec fn mid(t: Tree, lo: int, hi: int) -> int { lo + root(the_table(), sub(t, lo, hi)) }
/// the stretches whose value is on the stack after `i` steps
pub open spec fn held(t: Tree, lo: int, hi: int, i: int) -> Seq<(int, int)>
    decreases hi - lo,
{
    let k = mid(t, lo, hi);
    if i <= 0 { seq![] } else if i >= hi - lo || hi - lo <= 1 || !(lo < k < hi - 1) { seq![(lo, hi)] }
    else if i <= k - lo { held(t, lo, k, i) } else { seq![(lo, k)] + held(t, k + 1, hi, i - (k - lo)) }
}
/// the stretch that step `i` completes, and its operator
pub open spec fn done(t: Tree, lo: int, hi: int, i: int) -> (int, int, int)
    decreases hi - lo,
{
    let k = mid(t, lo, hi);
    if hi - lo <= 1 || !(lo < k < hi - 1) { (lo, lo, hi) } else if i == hi - lo - 1 { (lo, k, hi) }
    else if i < k - lo { done(t, lo, k, i) } else { done(t, k + 1, hi, i - (k - lo)) }
}
pub open spec fn steps(t: Tree, lo: int, hi: int, i: int) -> bool {
    let (a, k, b) = done(t, lo, hi, i);
    let (old, new) = (held(t, lo, hi, i), held(t, lo, hi, i + 1));
    &&& lo <= a <= k < b <= hi && rpn(the_table(), sub(t, lo, hi))[i] == t.kids[k]
    &&& b == a + 1 ==> a == k && (k - lo) % 2 == 0 && new == old.push((a, b))
    &&& b != a + 1 ==> k == mid(t, a, b) && a < k < b - 1 && (k - lo) % 2 == 1 && old.len() >= 2 && old[old.len() - 2] == (a, k) && old[old.len() - 1] == (k + 1, b) && new == old.take(old.len() - 2).push((a, b))
}
#[verifier::spinoff_prover]
pub proof fn rpn_len(t: Tree, lo: int, hi: int)
    requires stretch(t, lo, hi),
    ensures rpn(the_table(), sub(t, lo, hi)).len() == hi - lo, held(t, lo, hi, hi - lo) == seq![(lo, hi)],
        hi - lo > 1 ==> lo < mid(t, lo, hi) < hi - 1 && stretch(t, lo, mid(t, lo, hi)) && stretch(t, mid(t, lo, hi) + 1, hi) && (mid(t, lo, hi) - lo) % 2 == 1
            && sub(t, lo, hi)[mid(t, lo, hi) - lo] == t.kids[mid(t, lo, hi)]
            && rpn(the_table(), sub(t, lo, hi)) == rpn(the_table(), sub(t, lo, mid(t, lo, hi))) + rpn(the_table(), sub(t, mid(t, lo, hi) + 1, hi)) + seq![t.kids[mid(t, lo, hi)]],
    decreases hi - lo,
{
    if hi - lo > 1 {
        let s = sub(t, lo, hi);
        root_odd(the_table(), s);
        let k = mid(t, lo, hi);
        assert(s.take(k - lo) =~= sub(t, lo, k));
        assert(s.skip(k - lo + 1) =~= sub(t, k + 1, hi));
        rpn_len(t, lo, k);
        rpn_len(t, k + 1, hi);
    }
}
#[verifier::spinoff_prover]
pub proof fn step(t: Tree, lo: int, hi: int, i: int)
    requires stretch(t, lo, hi), 0 <= i < hi - lo,
    ensures steps(t, lo, hi, i),
    decreases hi - lo,
{
    rpn_len(t, lo, hi);
    if hi - lo > 1 {
        let k = mid(t, lo, hi);
        rpn_len(t, lo, k);
        rpn_len(t, k + 1, hi);
        if i == hi - lo - 1 {
            assert(held(t, lo, hi, i) =~= seq![(lo, k), (k + 1, hi)]);
            assert(held(t, lo, hi, i + 1) =~= held(t, lo, hi, i).take(0).push((lo, hi)));
        } else if i < k - lo {
            step(t, lo, k, i);
        } else {
            step(t, k + 1, hi, i - (k - lo));
            let (old, new) = (held(t, k + 1, hi, i - (k - lo)), held(t, k + 1, hi, i + 1 - (k - lo)));
            assert(held(t, lo, hi, i) =~= seq![(lo, k)] + old);
            assert(held(t, lo, hi, i + 1) =~= seq![(lo, k)] + new);
            let (a, m, b) = done(t, lo, hi, i);
            if b == a + 1 { assert((seq![(lo, k)] + old).push((a, b)) =~= seq![(lo, k)] + old.push((a, b))); }
            else { assert((seq![(lo, k)] + old).take(1 + old.len() - 2).push((a, b)) =~= seq![(lo, k)] + old.take(old.len() - 2).push((a, b))); }
        }
    }
}
/// a value for each stretch held
pub open spec fn value(t: Tree, x: (int, int), v: Result<ParseNode, Error<Rule>>) -> bool {
    match v { Ok(n) => reads_items(t, x.0, x.1, n.expr), Err(_) => bad(t) }
}
pub open spec fn values(t: Tree, h: Seq<(int, int)>, v: Seq<Result<ParseNode, Error<Rule>>>) -> bool {
    h.len() == v.len() && forall |j: int| 0 <= j < v.len() ==> value(t, h[j], #[trigger] v[j])
}
/// an operand
pub proof fn push_value(t: Tree, lo: int, hi: int, i: int, v: Seq<Result<ParseNode, Error<Rule>>>, p: Tree, inf: bool)
    requires shaped(t), expr_shape(t.kids), lo == lead(t.kids), hi == t.kids.len(), 0 <= i < hi - lo, values(t, held(t, lo, hi, i), v), p == rpn(the_table(), sub(t, lo, hi))[i], inf == (level(the_table(), p.rule) is Some),
    ensures
        inf == is_infix(p.rule),
        !inf ==> p.rule is term && shaped(p) && (bad(p) ==> bad(t)) && exists |z: int| 0 <= z < t.kids.len() && p == #[trigger] t.kids[z],
        !inf ==> forall |x: Result<ParseNode, Error<Rule>>| #![trigger v.push(x)] (match x { Ok(n) => reads_pre(p, 0, n.expr), Err(_) => bad(p) }) ==> values(t, held(t, lo, hi, i + 1), v.push(x)),
        inf ==> v.len() >= 2 && (forall |x: Result<ParseNode, Error<Rule>>| #![trigger v.take(v.len() - 2).push(x)]
            (match (v[v.len() - 2], v[v.len() - 1]) { (Ok(a), Ok(b)) => x matches Ok(n) && joins(p, a.expr, b.expr, n.expr), _ => x is Err }) ==> values(t, held(t, lo, hi, i + 1), v.take(v.len() - 2).push(x))),
{
    step(t, lo, hi, i);
    level_is(p.rule);
    let (a, k, b) = done(t, lo, hi, i);
    let (old, new) = (held(t, lo, hi, i), held(t, lo, hi, i + 1));
    tree::kid(t, k);
    assert(p == t.kids[k]);
    if b == a + 1 {
        assert(p.rule is term);
        assert forall |x: Result<ParseNode, Error<Rule>>| (match x { Ok(n) => reads_pre(p, 0, n.expr), Err(_) => bad(p) }) implies #[trigger] values(t, new, v.push(x)) by {
            assert(value(t, (a, b), x));
            assert(forall |j: int| 0 <= j < v.len() ==> new[j] == old[j]);
        }
    } else {
        assert(is_infix(p.rule));
        let w = v.take(v.len() - 2);
        assert forall |x: Result<ParseNode, Error<Rule>>| (match (v[v.len() - 2], v[v.len() - 1]) { (Ok(a), Ok(b)) => x matches Ok(n) && joins(p, a.expr, b.expr, n.expr), _ => x is Err }) implies #[trigger] values(t, new, w.push(x)) by {
            assert(value(t, old[old.len() - 2], v[v.len() - 2]) && value(t, old[old.len() - 1], v[v.len() - 1]));
            if let (Ok(y), Ok(z)) = (v[v.len() - 2], v[v.len() - 1]) {
                let n = x->Ok_0;
                assert(left_of(n.expr) == y.expr && right_of(n.expr) == z.expr);
                assert(reads_items(t, a, b, n.expr));
            }
            assert(value(t, (a, b), x));
            assert(forall |j: int| 0 <= j < w.len() ==> new[j] == old[j] && w[j] == v[j]);
        }
    }
}
pub proof fn no_values(t: Tree)
    ensures forall |h: Seq<(int, int)>, v: Seq<Result<ParseNode, Error<Rule>>>| h == Seq::<(int, int)>::empty() && v.len() == 0 ==> #[trigger] values(t, h, v),
        forall |x: (int, int), v: Seq<Result<ParseNode, Error<Rule>>>| #[trigger] values(t, seq![x], v) ==> v.len() == 1 && value(t, x, v[0]),
{ 
    assert forall |x: (int, int), v: Seq<Result<ParseNode, Error<Rule>>>| #[trigger] values(t, seq![x], v) implies v.len() == 1 && value(t, x, v[0]) by { assert(seq![x][0] == x); }
}
pub proof fn join_kinds(o: Tree)
    ensures
        is_infix(o.rule) == (o.rule is sequence_operator || o.rule is tilde_operator || o.rule is caret_operator || o.rule is choice_operator),
        forall |a: ParseExpr, b: ParseExpr, e: ParseExpr| #[trigger] joins(o, a, b, e) == (match e {
            ParseExpr::Seq(x, y, t) => x.expr == a && y.expr == b && (t is None && o.rule is sequence_operator || t is Optional && o.rule is tilde_operator || t is Mandatory && o.rule is caret_operator),
            ParseExpr::Choice(x, y) => x.expr == a && y.expr == b && o.rule is choice_operator,
            _ => false,
        }),
{ }
pub proof fn popped(v: Seq<Result<ParseNode, Error<Rule>>>, w: Seq<Result<ParseNode, Error<Rule>>>)
    ensures w.len() >= 1 && w.len() == v.len() - 1 && (forall |j: int| 0 <= j < w.len() - 1 ==> w[j] == v[j]) ==> w == v.take(v.len() - 2).push(w.last()),
        v.len() + 1 == w.len() && (forall |j: int| 0 <= j < v.len() ==> w[j] == v[j]) ==> w == v.push(w.last()),
{
    if w.len() >= 1 && w.len() == v.len() - 1 && (forall |j: int| 0 <= j < w.len() - 1 ==> w[j] == v[j]) { assert(w =~= v.take(v.len() - 2).push(w.last())); }
    if v.len() + 1 == w.len() && (forall |j: int| 0 <= j < v.len() ==> w[j] == v[j]) { assert(w =~= v.push(w.last())); }
}
pub proof fn expr_start(t: Tree)
    requires shaped(t), t.rule is expression,
    ensures
        expr_shape(t.kids), stretch(t, lead(t.kids), t.kids.len() as int),
        skipped(t.kids, Rule::choice_operator) == sub(t, lead(t.kids), t.kids.len() as int),
        operands_ok(the_table(), sub(t, lead(t.kids), t.kids.len() as int)),
        rpn(the_table(), sub(t, lead(t.kids), t.kids.len() as int)).len() == t.kids.len() - lead(t.kids),
        held(t, lead(t.kids), t.kids.len() as int, t.kids.len() - lead(t.kids)) == seq![(lead(t.kids), t.kids.len() as int)],
        held(t, lead(t.kids), t.kids.len() as int, 0) == Seq::<(int, int)>::empty(),
{
    tree::top(t);
    let (lo, hi) = (lead(t.kids), t.kids.len() as int);
    let s = sub(t, lo, hi);
    assert(skipped(t.kids, Rule::choice_operator) =~= s);
    assert forall |i: int| 0 <= i < s.len() implies (level(the_table(), (#[trigger] s[i]).rule) is Some) == (i % 2 == 1) by {
        level_is(s[i].rule);
        assert(s[i] == t.kids[lo + i]);
    }
    rpn_len(t, lo, hi);
}
//@free meta parse_node
    requires shaped(expr@), expr@.rule is expression, pratt_parser@ == the_table(),
    ensures r is Err ==> bad(expr@), r matches Ok(n) ==> reads(expr@, n.expr),
    decreases expr@, 4int,
//@noiso
//@start
hide(shaped); hide(bad); hide(held); hide(rpn); hide(level); hide(operands_ok); hide(stretch); hide(expr_shape); hide(values); hide(sub); hide(lead); hide(the_table); hide(reads_pre); hide(joins);
let ghost t0 = expr@;
let ghost (lo, hi) = (lead(t0.kids), t0.kids.len() as int);
proof { expr_start(t0); no_values(t0); }
//@loop 0
    invariant
        views(it0.seq()) == rpn(the_table(), sub(t0, lo, hi)), values(t0, held(t0, lo, hi, it0.index@ as int), __pops0@),
//@loopstart 0
let ghost v0 = __pops0@;
proof { assert(views(it0.seq())[it0.index@ as int] == it0.seq()[it0.index@ as int]@); push_value(t0, lo, hi, it0.index@ as int, v0, it0.seq()[it0.index@ as int]@, level(the_table(), it0.seq()[it0.index@ as int]@.rule) is Some); join_kinds(it0.seq()[it0.index@ as int]@); }
//@loopend 0
proof { popped(v0, __pops0@); }
//@end
//@free meta parse_rule_doc
    requires local_shape(pair@), pair@.rule is rule_doc,
    ensures r is Ok, r->Ok_0@ == trimmed(pair@.text.skip(3)),
//@end
//@free meta parse_grammar_doc
    requires local_shape(pair@), pair@.rule is grammar_doc,
    ensures r is Ok, r->Ok_0@ == trimmed(pair@.text.skip(3)),
//@end
/// what the rule says of itself
pub open spec fn doc_texts(k: Seq<Tree>) -> Seq<Name> { Seq::new(docs(k, 0) as nat, |i: int| trimmed(k[i].text.skip(3))) }
pub open spec fn reads_rule(t: Tree, r: ParseRule) -> bool {
    let k = t.kids;
    strings(r.doc@) == doc_texts(k) && r.name@ == k[docs(k, 0)].text && strings(r.args@) == params(k) && r.silent == is_silent(k)
        && reads(k[expr_at(k)], r.node.expr)
}
pub proof fn docs_facts(k: Seq<Tree>, i: int)
    requires 0 <= i <= k.len(),
    ensures i <= docs(k, i) <= k.len(), forall |j: int| i <= j < docs(k, i) ==> (#[trigger] k[j]).rule is rule_doc, docs(k, i) < k.len() ==> !(k[docs(k, i)].rule is rule_doc),
    decreases k.len() - i,
{ if i < k.len() && k[i].rule is rule_doc { docs_facts(k, i + 1); } }
pub open spec fn doc_facts(t: Tree, d: int) -> bool {
    let (k, rest) = (t.kids, t.kids.skip(d));
    &&& 0 <= d <= docs(k, 0) && rest.len() > 0 && (rest[0].rule is rule_doc) == (d < docs(k, 0))
    &&& d < docs(k, 0) ==> local_shape(rest[0]) && rest.skip(1) == k.skip(d + 1) && doc_texts(k).take(d + 1) == doc_texts(k).take(d).push(trimmed(rest[0].text.skip(3)))
    &&& d == docs(k, 0) ==> doc_texts(k).take(d) == doc_texts(k)
}
pub proof fn doc_step(t: Tree, d: int)
    requires shaped(t), t.rule is grammar_rule, 0 <= d <= docs(t.kids, 0),
    ensures doc_facts(t, d), t.kids.skip(0) == t.kids, doc_texts(t.kids).take(0) == Seq::<Name>::empty(),
{
    let k = t.kids;
    tree::top(t);
    docs_facts(k, 0);
    assert(k.skip(0) =~= k);
    assert(doc_texts(k).take(0) =~= Seq::empty());
    assert(k.skip(d)[0] == k[d]);
    if d < docs(k, 0) {
        tree::kid(t, d);
        assert(k.skip(d).skip(1) =~= k.skip(d + 1));
        assert(doc_texts(k).take(d + 1) =~= doc_texts(k).take(d).push(trimmed(k[d].text.skip(3))));
    } else { assert(doc_texts(k).take(d) =~= doc_texts(k)); }
}
pub open spec fn ident_facts(s: Seq<Tree>, i: int) -> bool {
    idents(s.take(i + 1)) == (if s[i].rule is identifier { idents(s.take(i)).push(s[i].text) } else { idents(s.take(i)) })
}
pub proof fn ident_step(s: Seq<Tree>, i: int)
    requires 0 <= i < s.len(),
    ensures ident_facts(s, i),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// the pairs of a rule behind its comments, by place
pub open spec fn rule_facts(t: Tree) -> bool {
    let k = t.kids;
    let (d, o, e) = (docs(k, 0), open_at(k), expr_at(k));
    let rest = k.skip(d + 2);
    let tail = skipped(rest, Rule::assignment_operator);
    let open = if is_silent(k) { tail.skip(1) } else { tail };
    let body = if open[0].rule is opening_brace { open.skip(1) } else { open };
    &&& k.skip(d).len() > 1 && k.skip(d)[0] == k[d] && k.skip(d).skip(1)[0] == k[d + 1] && k.skip(d).skip(1).skip(1) == rest
    &&& params(k) == idents(k[d + 1].kids)
    &&& tail.len() > 0 && (tail[0].rule is silent_modifier) == is_silent(k)
    &&& open.len() > 0
    &&& body.len() > 0 && body[0] == k[e] && k[e].rule is expression && shaped(k[e]) && (bad(k[e]) ==> bad(t))
    &&& skipped(open, Rule::opening_brace) == body
}
pub proof fn rule_kid(t: Tree)
    requires shaped(t), t.rule is grammar_rule,
    ensures rule_shape(t.kids), docs(t.kids, 0) + 1 < t.kids.len(),
        shaped(t.kids[expr_at(t.kids)]), bad(t.kids[expr_at(t.kids)]) ==> bad(t),
        t.kids[docs(t.kids, 0) + 1].rule is assignment_operator ==> t.kids[docs(t.kids, 0) + 1].kids.len() == 0,
{ hide(bad); hide(decode); tree::top(t); docs_facts(t.kids, 0); tree::kid(t, expr_at(t.kids)); tree::kid(t, docs(t.kids, 0) + 1); }
pub proof fn rule_parts(t: Tree)
    requires shaped(t), t.rule is grammar_rule,
    ensures rule_facts(t), idents(t.kids[docs(t.kids, 0) + 1].kids.take(0)) == Seq::<Name>::empty(),
        t.kids[docs(t.kids, 0) + 1].kids.take(t.kids[docs(t.kids, 0) + 1].kids.len() as int) == t.kids[docs(t.kids, 0) + 1].kids,
{
    hide(shaped); hide(bad); hide(local_shape); hide(decode); hide(params); hide(rule_facts); hide(idents);
    let k = t.kids;
    rule_kid(t);
    docs_facts(k, 0);
    let (d, a, o, e) = (docs(k, 0), assigned(k), open_at(k), expr_at(k));
    let n = k[d + 1].kids;
    assert(n.take(n.len() as int) =~= n);
    assert(k.skip(d).skip(1) =~= k.skip(d + 1));
    assert(k.skip(d).skip(1).skip(1) =~= k.skip(d + 2));
    let rest = k.skip(d + 2);
    assert(rest[0] == k[d + 2]);
    assert(skipped(rest, Rule::assignment_operator) =~= k.skip(a + 1));
    if is_silent(k) { assert(k.skip(a + 1).skip(1) =~= k.skip(o)); }
    if k[o].rule is opening_brace { assert(k.skip(o).skip(1) =~= k.skip(e)); }
    assert(idents(n.take(0)) == Seq::<Name>::empty()) by { reveal(idents); }
    assert(params(k) == idents(n)) by { reveal(params); if !(k[d + 1].rule is arguments) { assert(n =~= n.take(0)); } }
    assert(rule_facts(t)) by { reveal(rule_facts); }
}
pub proof fn table_is()
    ensures
        forall |a: Seq<(Rule, bool)>, b: Seq<(Rule, bool)>, c: Seq<(Rule, bool)>, d: Seq<(Rule, bool)>|
            a == seq![(Rule::choice_operator, true)] && b == seq![(Rule::sequence_operator, true)] && c == seq![(Rule::tilde_operator, true)] && d == seq![(Rule::caret_operator, true)]
            ==> #[trigger] Seq::<Seq<(Rule, bool)>>::empty().push(a).push(b + c + d) == the_table(),
{
    assert forall |a: Seq<(Rule, bool)>, b: Seq<(Rule, bool)>, c: Seq<(Rule, bool)>, d: Seq<(Rule, bool)>|
            a == seq![(Rule::choice_operator, true)] && b == seq![(Rule::sequence_operator, true)] && c == seq![(Rule::tilde_operator, true)] && d == seq![(Rule::caret_operator, true)]
            implies #[trigger] Seq::<Seq<(Rule, bool)>>::empty().push(a).push(b + c + d) == the_table() by {
        assert(b + c + d =~= the_table()[1]);
        assert(Seq::<Seq<(Rule, bool)>>::empty().push(a).push(b + c + d) =~= the_table());
    }
}
//@free meta parse_rule
    requires shaped(rule@), rule@.rule is grammar_rule,
    ensures r is Err ==> bad(rule@), r matches Ok(x) ==> reads_rule(rule@, x),
//@start
hide(shaped); hide(bad); hide(local_shape); hide(the_table); hide(idents); hide(params); hide(docs); hide(doc_texts); hide(is_silent); hide(expr_at); hide(reads);
let ghost t0 = rule@;
let ghost k = rule@.kids;
let ghost kk = k[docs(k, 0) + 1].kids;
proof { docs_facts(k, 0); doc_step(t0, 0); doc_step(t0, docs(k, 0)); rule_parts(t0); table_is(); }
//@loop 0
    invariant
        shaped(t0), t0.rule is grammar_rule, k == t0.kids,
        0 <= doc@.len() <= docs(k, 0), pairs@ == k.skip(doc@.len() as int), strings(doc@) =~= doc_texts(k).take(doc@.len() as int), doc_facts(t0, doc@.len() as int),
    ensures doc@.len() == docs(k, 0),
    decreases pairs@.len(),
//@loopend 0
proof { doc_step(t0, doc@.len() as int); }
//@loop 1
    invariant
        views(it1.seq()) == kk, strings(vx_out0@) =~= idents(kk.take(it1.index@ as int)),
//@loopstart 1
proof { assert(views(it1.seq())[it1.index@ as int] == it1.seq()[it1.index@ as int]@); ident_step(kk, it1.index@ as int); }
//@end
