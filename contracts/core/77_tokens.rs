// pest3_generator: token streams, paths and their arguments
//@path String String
//@rename clone 0 vx_clone
//@rename enumerate 0 vx_enumerate
//@rename contains 1 vx_contains
//@rename unwrap 0 vx_unwrap
//@rename mk_ident 1 vx_ident
//@modules parser generator
//@known resolve content content_i contents optional choice join GetterByName::default GetterByName::from_generics_arg GetterByName::from_rule process_expr ProcessedPathArgs::process ModuleError::check_argc
//@path BTreeSet BTreeSet
//@path BTreeMap BTreeMap
//@ident ParseNode ParseNode
pub type Name = Seq<char>;
// ---------------------------------------------------------------- token streams
pub enum Tok { Id(Name), Life(Name), Colon2, Colon, Lt, Gt, Comma, Semi, Eq, And, Pound, Char(char), Usize(usize), Isize(isize), Str(Name), Group(int, Ts) }
#[verifier::ext_equal]
pub struct Ts { s: Seq<Tok> }
pub mod ts {
    use super::*;
    pub closed spec fn ts0() -> Ts { Ts { s: Seq::empty() } }
    pub closed spec fn tok(t: Tok) -> Ts { Ts { s: seq![t] } }
    pub closed spec fn cat(a: Ts, b: Ts) -> Ts { Ts { s: a.s + b.s } }
    pub broadcast proof fn cat_assoc(a: Ts, b: Ts, c: Ts)
        ensures #[trigger] cat(a, cat(b, c)) == cat(cat(a, b), c),
    { assert(a.s + (b.s + c.s) =~= (a.s + b.s) + c.s); }
    pub broadcast proof fn cat_l(a: Ts)
        ensures #[trigger] cat(ts0(), a) == a,
    { assert(Seq::<Tok>::empty() + a.s =~= a.s); }
    pub broadcast proof fn cat_r(a: Ts)
        ensures #[trigger] cat(a, ts0()) == a,
    { assert(a.s + Seq::<Tok>::empty() =~= a.s); }
    pub broadcast group norm { cat_assoc, cat_l, cat_r }
}
pub use ts::*;
impl Ts {
    #[verifier::inline] pub open spec fn id(self, s: &str) -> Ts { cat(self, tok(Tok::Id(s@))) }
    #[verifier::inline] pub open spec fn name(self, s: Name) -> Ts { cat(self, tok(Tok::Id(s))) }
    #[verifier::inline] pub open spec fn life(self, s: &str) -> Ts { cat(self, tok(Tok::Life(s@))) }
    #[verifier::inline] pub open spec fn colon2(self) -> Ts { cat(self, tok(Tok::Colon2)) }
    #[verifier::inline] pub open spec fn colon(self) -> Ts { cat(self, tok(Tok::Colon)) }
    #[verifier::inline] pub open spec fn lt(self) -> Ts { cat(self, tok(Tok::Lt)) }
    #[verifier::inline] pub open spec fn gt(self) -> Ts { cat(self, tok(Tok::Gt)) }
    #[verifier::inline] pub open spec fn comma(self) -> Ts { cat(self, tok(Tok::Comma)) }
    #[verifier::inline] pub open spec fn semi(self) -> Ts { cat(self, tok(Tok::Semi)) }
    #[verifier::inline] pub open spec fn eq_(self) -> Ts { cat(self, tok(Tok::Eq)) }
    #[verifier::inline] pub open spec fn and(self) -> Ts { cat(self, tok(Tok::And)) }
    #[verifier::inline] pub open spec fn add(self, o: Ts) -> Ts { cat(self, o) }
    #[verifier::inline] pub open spec fn num(self, n: usize) -> Ts { cat(self, tok(Tok::Usize(n))) }
    #[verifier::inline] pub open spec fn int(self, n: isize) -> Ts { cat(self, tok(Tok::Isize(n))) }
    #[verifier::inline] pub open spec fn chr(self, n: char) -> Ts { cat(self, tok(Tok::Char(n))) }
    #[verifier::inline] pub open spec fn text(self, n: Name) -> Ts { cat(self, tok(Tok::Str(n))) }
    #[verifier::inline] pub open spec fn group(self, d: int, o: Ts) -> Ts { cat(self, tok(Tok::Group(d, o))) }
}
/// TRUSTED: `proc_macro2::TokenStream` and what `quote!` expands to, as sequences of tokens
#[verifier::external_body]
pub struct TokenStream { s: std::string::String }
impl TokenStream {
    pub uninterp spec fn view(&self) -> Ts;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == ts0(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Ident { s: std::string::String }
impl Ident { pub uninterp spec fn view(&self) -> Name; }
pub trait ToTokens {
    spec fn toks(&self) -> Ts;
    fn to_tokens(&self, s: &mut TokenStream)
        ensures final(s)@ == cat(old(s)@, self.toks());
}
impl<T: ToTokens + ?Sized> ToTokens for &T {
    open spec fn toks(&self) -> Ts { (**self).toks() }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for TokenStream {
    open spec fn toks(&self) -> Ts { self@ }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for Ident {
    open spec fn toks(&self) -> Ts { tok(Tok::Id(self@)) }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for char {
    open spec fn toks(&self) -> Ts { tok(Tok::Char(*self)) }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for usize {
    open spec fn toks(&self) -> Ts { tok(Tok::Usize(*self)) }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for isize {
    open spec fn toks(&self) -> Ts { tok(Tok::Isize(*self)) }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for str {
    open spec fn toks(&self) -> Ts { tok(Tok::Str(self@)) }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl ToTokens for String {
    open spec fn toks(&self) -> Ts { tok(Tok::Str(self@)) }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
impl<'g> ToTokens for Intermediate<'g> {
    open spec fn toks(&self) -> Ts { self.typename@ }
    #[verifier::external_body] fn to_tokens(&self, s: &mut TokenStream) { unimplemented!() }
}
pub mod quote { pub use super::ToTokens; pub mod __private {
    use super::super::*;
    pub use super::super::TokenStream;
    pub enum Delimiter { Parenthesis, Brace, Bracket, None }
    pub open spec fn delim(d: Delimiter) -> int { match d { Delimiter::Parenthesis => 0, Delimiter::Brace => 1, Delimiter::Bracket => 2, Delimiter::None => 3 } }
    #[verifier::external_body] pub fn push_ident(s: &mut TokenStream, n: &str) ensures final(s)@ == cat(old(s)@, tok(Tok::Id(n@))), { unimplemented!() }
    #[verifier::external_body] pub fn push_lifetime(s: &mut TokenStream, n: &str) ensures final(s)@ == cat(old(s)@, tok(Tok::Life(n@))), { unimplemented!() }
    #[verifier::external_body] pub fn push_colon2(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Colon2)), { unimplemented!() }
    #[verifier::external_body] pub fn push_colon(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Colon)), { unimplemented!() }
    #[verifier::external_body] pub fn push_lt(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Lt)), { unimplemented!() }
    #[verifier::external_body] pub fn push_gt(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Gt)), { unimplemented!() }
    #[verifier::external_body] pub fn push_comma(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Comma)), { unimplemented!() }
    #[verifier::external_body] pub fn push_semi(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Semi)), { unimplemented!() }
    #[verifier::external_body] pub fn push_eq(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Eq)), { unimplemented!() }
    #[verifier::external_body] pub fn push_and(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::And)), { unimplemented!() }
    #[verifier::external_body] pub fn push_pound(s: &mut TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Pound)), { unimplemented!() }
    #[verifier::external_body] pub fn push_group(s: &mut TokenStream, d: Delimiter, o: TokenStream) ensures final(s)@ == cat(old(s)@, tok(Tok::Group(delim(d), o@))), { unimplemented!() }
} }
/// the text of a name
pub struct VxText { pub s: Ghost<Name> }
pub uninterp spec fn digits(n: usize) -> Name;
pub trait VxNamePart { spec fn part(&self) -> Name; }
impl VxNamePart for usize { open spec fn part(&self) -> Name { digits(*self) } }
impl VxNamePart for str { open spec fn part(&self) -> Name { self@ } }
impl VxNamePart for String { open spec fn part(&self) -> Name { self@ } }
impl<T: VxNamePart + ?Sized> VxNamePart for &T { open spec fn part(&self) -> Name { (**self).part() } }
impl VxText {
    pub open spec fn view(&self) -> Name { self.s@ }
    pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty(), { VxText { s: Ghost(Seq::empty()) } }
    pub fn vx_lit(self, l: &str) -> (r: Self) ensures r@ == self@ + l@, { VxText { s: Ghost(self.s@ + l@) } }
    pub fn vx_arg<T: VxNamePart>(self, a: &T) -> (r: Self) ensures r@ == self@ + a.part(), { VxText { s: Ghost(self.s@ + a.part()) } }
}
#[verifier::external_body]
pub fn vx_ident(t: VxText) -> (r: Ident)
    ensures r@ == t@,
{ unimplemented!() }
/// the name `lit` followed by `arg`
#[verifier::inline]
pub open spec fn name1(lit: &str, arg: Name) -> Name { Seq::empty() + lit@ + arg }
/// TRUSTED: what a `quote!` repetition goes through
pub trait VxReps<'a, T> { fn vx_reps(self) -> core::slice::Iter<'a, T>; }
impl<'a, T> VxReps<'a, T> for &'a Vec<T> {
    #[verifier::external_body]
    fn vx_reps(self) -> (r: core::slice::Iter<'a, T>)
        ensures
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
            vstd::std_specs::iter::IteratorSpec::remaining(&r) == self@.map_values(|x: T| &x),
    { unimplemented!() }
}
impl<'a, T> VxReps<'a, T> for core::slice::Iter<'a, T> {
    fn vx_reps(self) -> (r: core::slice::Iter<'a, T>) ensures r == self, { self }
}
#[verifier::external_body]
pub fn vx_formatted() -> (r: String) { unimplemented!() }
pub trait VxUnwrap<T> { fn vx_unwrap(self) -> T; }
impl<'g> VxUnwrap<Intermediate<'g>> for Result<Intermediate<'g>, ModuleError<'g>> {
    /// (a path that resolves to nothing ends the generation)
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: Intermediate<'g>)
        ensures self is Ok, r == self->Ok_0,
    { unimplemented!() }
}
pub trait VxContains { fn vx_contains(&self, q: &String) -> bool; }
impl VxContains for Vec<String> {
    #[verifier::external_body]
    fn vx_contains(&self, q: &String) -> (r: bool)
        ensures r == names(self@).contains(q@),
    { unimplemented!() }
}
pub open spec fn names(v: Seq<String>) -> Seq<Name> { v.map_values(|s: String| s@) }
pub open spec fn names_r(v: Seq<&str>) -> Seq<Name> { v.map_values(|s: &str| s@) }
/// TRUSTED: `enumerate`
pub struct VxEnum<T> { pub v: Vec<(usize, T)> }
pub trait VxEnumerate<T>: Sized { fn vx_enumerate(self) -> VxEnum<T>; }
pub open spec fn numbered_items<T>(v: Seq<T>) -> Seq<(usize, T)> { Seq::new(v.len(), |i: int| (i as usize, v[i])) }
impl<T> VxEnumerate<T> for std::vec::IntoIter<T> {
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: VxEnum<T>)
        ensures r.v@ == numbered_items(vstd::std_specs::iter::IteratorSpec::remaining(&self)),
    { unimplemented!() }
}
impl<T> IntoIterator for VxEnum<T> {
    type Item = (usize, T);
    type IntoIter = std::vec::IntoIter<(usize, T)>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<(usize, T)>)
        ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.v@, vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
    { unimplemented!() }
}
/// TRUSTED: maps and sets of `alloc::collections`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { s: std::collections::BTreeSet<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl BTreeSet<usize> {
    pub uninterp spec fn view(&self) -> Set<usize>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k),
    { unimplemented!() }
}
impl<'g> BTreeMap<&'g str, usize> {
    pub uninterp spec fn view(&self) -> Map<Name, usize>;
    #[verifier::external_body]
    pub fn vx_get(&self, q: &str) -> (r: Option<&usize>)
        ensures r is Some == self@.dom().contains(q@), r is Some ==> *r->0 == self@[q@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'g str, v: usize) -> (r: Option<usize>)
        ensures final(self)@ == old(self)@.insert(k@, v),
    { unimplemented!() }
}
// ---------------------------------------------------------------- names used by the generated code
pub open spec fn pest_ts() -> Ts { ts0().colon2().id("pest3") }
pub open spec fn generics_ts() -> Ts { ts0().id("generics") }
//@free generator pest
    ensures r@ == pest_ts(),
//@start
broadcast use ts::norm;
//@end
//@free generator _str
    ensures r@ == ts0().colon2().id("core").colon2().id("primitive").colon2().id("str"),
//@start
broadcast use ts::norm;
//@end
//@free generator option_type
    ensures r@ == pest_ts().colon2().id("std").colon2().id("Option"),
//@start
broadcast use ts::norm;
//@end
//@free generator generics
    ensures r@ == generics_ts(),
//@start
broadcast use ts::norm;
//@end
//@free generator constant_wrappers
    ensures r@ == ts0().id("wrapper"),
//@start
broadcast use ts::norm;
//@end
// ---------------------------------------------------------------- paths
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxOpaque<T> { t: T }
/// TRUSTED: accessor trees; they do not enter the type
#[verifier::external_body]
pub struct GetterByName<'g> { s: &'g str }
impl<'g> GetterByName<'g> {
    #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn from_generics_arg(n: &'g str) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn from_rule(t: &TokenStream, n: &'g str) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn content(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn content_i(self, i: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn contents(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn optional(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn choice(self, i: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn join(self, o: Self) -> (r: Self) { unimplemented!() }
}
//@item meta ParseRule
//@item generator RuleConfig
//@item generator Intermediate
//@item generator ProcessedPathArgs
//@item generator RuleRef
/// arguments of a path
pub enum Args { No, Call(Seq<Ts>), Slice(PRange<isize>) }
pub open spec fn types_of(v: Seq<Intermediate>) -> Seq<Ts> { v.map_values(|i: Intermediate| i.typename@) }
pub open spec fn args_of(a: Option<ProcessedPathArgs>) -> Args {
    match a { None => Args::No, Some(ProcessedPathArgs::Call(v)) => Args::Call(types_of(v@)), Some(ProcessedPathArgs::Slice(s)) => Args::Slice(s) }
}
impl PRange<isize> {
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: PRange<isize>) ensures r == *self, { unimplemented!() }
}
pub open spec fn strs(v: Vec<&str>) -> Seq<Name> { names_r(v@) }
/// `a, b, c,`
pub open spec fn listed(v: Seq<Ts>) -> Ts
    decreases v.len(),
{ if v.len() == 0 { ts0() } else { cat(cat(listed(v.drop_last()), v.last()), tok(Tok::Comma)) } }
pub broadcast proof fn take_full<T>(s: Seq<T>, k: int)
    ensures k == s.len() ==> #[trigger] s.take(k) == s,
{ if k == s.len() { assert(s.take(k) =~= s); } }
pub proof fn listed_next(v: Seq<Ts>, k: int)
    requires 0 <= k < v.len(),
    ensures listed(v.take(k + 1)) == cat(cat(listed(v.take(k)), v[k]), tok(Tok::Comma)),
{ assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]); }
pub proof fn take_next<T>(v: Seq<T>, k: int, s: Seq<T>)
    requires 0 <= k < v.len(), s == v.take(k),
    ensures s.push(v[k]) == v.take(k + 1),
{ assert(s.push(v[k]) =~= v.take(k + 1)); }
pub open spec fn tss(v: Vec<TokenStream>) -> Seq<Ts> { v@.map_values(|t: TokenStream| t@) }
pub broadcast proof fn push_map<A, B>(s: Seq<A>, x: A, f: spec_fn(A) -> B)
    ensures #[trigger] s.push(x).map_values(f) == s.map_values(f).push(f(x)),
{ assert(s.push(x).map_values(f) =~= s.map_values(f).push(f(x))); }
//@open generator impl RuleRef
//@fn new
    ensures names_r(r.path@) =~= names(path@), r.args == args,
//@loop 0
    invariant
        it0.seq().len() == path@.len(), forall |i: int| #![trigger it0.seq()[i]] #![trigger path@[i]] 0 <= i < path@.len() ==> *(it0.seq()[i]) == path@[i],
        strs(vx_out0).len() == it0.index@, forall |i: int| 0 <= i < it0.index@ ==> #[trigger] strs(vx_out0)[i] == path@[i]@,
//@loopstart 0
broadcast use push_map;
let ghost _q = path@[it0.index@ as int];
//@close
