// pest3_meta: the grammars that a grammar imports
//@path AsRef VxAsRef
//@path PathBuf PathBuf
//@path Path Path
//@path HashMap Cache
//@path BTreeSet Paths
//@path Arc std::sync::Arc
//@rename starts_with 1 vx_starts_with
//@rename extend 1 vx_extend
//@path PathBuf::from PathBuf::vx_from
//@path Default::default Cache::default
//@rename get 1 vx_get
use std::sync::Arc;
pub type FPath = Seq<Name>;
/// TRUSTED: file paths, their components, and the files there are
impl View for PathBuf { type V = FPath; uninterp spec fn view(&self) -> FPath; }
#[verifier::external_body]
pub struct Path { p: std::path::PathBuf }
impl View for Path { type V = FPath; uninterp spec fn view(&self) -> FPath; }
impl Path {
    #[verifier::external_body] pub fn vx_to_string(&self) -> (r: PathBuf) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_path(&self) -> (r: PathBuf) ensures r@ == self@, { unimplemented!() }
}
pub trait VxAsRef<T> {
    spec fn refd(&self) -> T;
    fn as_ref(&self) -> (r: &T)
        ensures *r == self.refd();
}
impl VxAsRef<Path> for PathBuf {
    uninterp spec fn refd(&self) -> Path;
    #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_ref(p: PathBuf) ensures #[trigger] p.refd()@ == p@, { }
/// the components that the text of a path names
pub uninterp spec fn components(s: Name) -> FPath;
impl PathBuf {
    #[verifier::external_body] pub fn vx_from(s: String) -> (r: PathBuf) ensures r@ == components(s@), { unimplemented!() }
}
pub uninterp spec fn file_text(p: FPath) -> Option<Name>;
pub open spec fn up() -> Name { seq!['.', '.'] }
/// a path of a file, not of a directory
pub open spec fn of_file(p: FPath) -> bool { p.len() > 0 && p.last() != up() }
#[verifier::external_body]
pub broadcast proof fn axiom_file(p: FPath) ensures #[trigger] file_text(p) is Some ==> of_file(p), { }
#[verifier::external_body]
pub struct IoError { e: std::io::Error }
#[verifier::external_body]
pub fn read_to_string(p: &PathBuf) -> (r: Result<String, IoError>)
    ensures match file_text(p@) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err },
{ unimplemented!() }
/// TRUSTED: it does not return
#[verifier::external_body]
pub fn vx_halt() -> ! { panic!() }
/// TRUSTED: paths that a grammar depends on (nothing is said of them)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Paths<T> { t: Vec<T> }
#[verifier::external_body]
pub struct PathsIter<'a> { t: &'a PathBuf }
impl Paths<PathBuf> {
    #[verifier::external_body] pub fn insert(&mut self, p: PathBuf) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> PathsIter<'_> { unimplemented!() }
    #[verifier::external_body] pub fn vx_extend(&mut self, i: PathsIter<'_>) { unimplemented!() }
}
impl<'a> PathsIter<'a> {
    #[verifier::external_body] pub fn cloned(self) -> (r: Self) { unimplemented!() }
}
/// TRUSTED: a map from paths
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Cache<K, V> { k: K, v: V }
impl Cache<PathBuf, Arc<GrammarModule>> {
    pub uninterp spec fn view(&self) -> Map<FPath, GrammarModule>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<FPath, GrammarModule>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get(&self, p: &PathBuf) -> (r: Option<&Arc<GrammarModule>>)
        ensures r is Some == self@.contains_key(p@), r is Some ==> **r->0 == self@[p@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: PathBuf, m: Arc<GrammarModule>) -> (r: Option<Arc<GrammarModule>>)
        ensures final(self)@ == old(self)@.insert(p@, *m),
    { unimplemented!() }
}
pub trait VxCloneArc: Sized { fn vx_clone(&self) -> Self; }
impl VxCloneArc for Arc<GrammarModule> {
    #[verifier::external_body] fn vx_clone(&self) -> (r: Self) ensures *r == **self, { unimplemented!() }
}
pub trait VxStartsWith { fn vx_starts_with<const N: usize>(&self, s: &[String; N]) -> bool; }
impl VxStartsWith for Vec<String> {
    #[verifier::external_body]
    fn vx_starts_with<const N: usize>(&self, s: &[String; N]) -> (r: bool)
        ensures
            r == strings(s@).is_prefix_of(strings(self@)), N == 1 ==> r == (self@.len() > 0 && self@[0]@ == s@[0]@),
    { unimplemented!() }
}
//@item meta DocComment
//@item meta Import
//@item meta GrammarModule
impl GrammarModule {
    /// TRUSTED: the derived `Default`
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.rules@.len() == 0, r.doc.grammar_doc@.len() == 0, r.imports@.len() == 0, { unimplemented!() }
}
/// the pairs that the parser of grammar.pest makes of a text
pub uninterp spec fn grammar_of(s: Name) -> Option<Seq<Tree>>;
/// TRUSTED: their shape
pub open spec fn import_shape(t: Tree) -> bool {
    let k = t.kids;
    k.len() > 0 && k[0].rule is path && (named(k[0].kids) == k[0].kids.len() || k[0].kids.last().rule is slice)
        && forall |i: int| 1 <= i < k.len() ==> (#[trigger] k[i]).rule is string || k[i].rule is identifier
}
pub open spec fn top_shape(t: Tree) -> bool { shaped(t) && (t.rule is import ==> import_shape(t)) }
pub mod grammar {
    use super::*;
    pub struct Parser;
    impl Parser {
        #[verifier::external_body]
        pub fn parse<'i>(rule: Rule, s: &'i str) -> (r: Result<Pairs<'i, Rule>, Error<Rule>>)
            ensures
                match grammar_of(s@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
                r is Ok ==> forall |i: int| 0 <= i < r->Ok_0@.len() ==> top_shape(#[trigger] r->Ok_0@[i]),
        { unimplemented!() }
    }
}
// ---------------------------------------------------------------- what an import means
/// one component: no separator, not empty, no dot in it
pub open spec fn plain(s: Name) -> bool { s.len() > 0 && !s.contains('.') && !s.contains('/') && !s.contains('\\') && !s.contains(':') }
pub open spec fn comp(s: Name) -> Name { if s == "super"@ { up() } else { s } }
/// the file a module path names (73_paths proves it of mod_path_to_fs_path)
pub open spec fn resolvable(p: Seq<Name>) -> bool { p.len() > 0 && p.last() != "super"@ && forall |i: int| 0 <= i < p.len() ==> plain(#[trigger] p[i]) }
pub open spec fn module_file(root: FPath, p: Seq<Name>) -> FPath {
    root.drop_last() + Seq::new((p.len() - 1) as nat, |i: int| comp(p[i])) + seq![p.last() + ".pest"@]
}
/// the last text amongst the pairs from place `n` on
pub open spec fn last_of(k: Seq<Tree>, n: int, rule: Rule) -> Option<Tree>
    decreases n,
{ if n <= 1 || n > k.len() { None } else if k[n - 1].rule == rule { Some(k[n - 1]) } else { last_of(k, n - 1, rule) } }
pub open spec fn alias(t: Tree) -> Name {
    match last_of(t.kids, t.kids.len() as int, Rule::identifier) { Some(a) => a.text, None => path_names(t.kids[0].kids).last() }
}
pub open spec fn builtin(p: Seq<Name>) -> bool { p.len() > 0 && p[0] == "pest"@ }
/// the file of an import
pub open spec fn is_file(t: Tree, root: FPath, f: FPath) -> bool {
    let p = path_names(t.kids[0].kids);
    match last_of(t.kids, t.kids.len() as int, Rule::string) {
        Some(s) => decode(body(s.text, 1)) matches Some(x) && f == components(x),
        None => resolvable(p) ==> f == module_file(root, p),
    }
}
pub open spec fn only(s: Seq<Tree>, r: Rule) -> Seq<Tree>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else if s.last().rule == r { only(s.drop_last(), r).push(s.last()) } else { only(s.drop_last(), r) } }
pub open spec fn reads_docs(s: Seq<Tree>, v: Seq<String>) -> bool { strings(v) == only(s, Rule::grammar_doc).map_values(|t: Tree| trimmed(t.text.skip(3))) }
pub open spec fn reads_rules(s: Seq<Tree>, v: Seq<ParseRule>) -> bool {
    let k = only(s, Rule::grammar_rule);
    v.len() == k.len() && forall |i: int| 0 <= i < k.len() ==> reads_rule(k[i], #[trigger] v[i])
}
/// what a grammar read from a file holds: its rules, comments and imports, in order
pub open spec fn reads_module(s: Seq<Tree>, root: FPath, m: GrammarModule) -> bool
    decreases m, 2int,
{ reads_docs(s, m.doc.grammar_doc@) && reads_rules(s, m.rules@) && reads_imports(s, root, m) }
pub open spec fn reads_imports(s: Seq<Tree>, root: FPath, m: GrammarModule) -> bool
    decreases m, 1int,
{
    let k = only(s, Rule::import);
    m.imports@.len() == k.len() && forall |i: int| 0 <= i < m.imports@.len() ==> reads_import(k[i], root, #[trigger] m.imports@[i])
}
pub open spec fn reads_import(t: Tree, root: FPath, x: Import) -> bool
    decreases x, 0int,
{
    let p = path_names(t.kids[0].kids);
    match x {
        Import::Builtin(a, q) => builtin(p) && a@ == alias(t) && strings(q@) == p,
        Import::File(a, m) => !builtin(p) && a@ == alias(t) && of_some_file(t, root, *m),
    }
}
pub open spec fn of_some_file(t: Tree, root: FPath, m: GrammarModule) -> bool
    decreases m, 4int,
{ exists |f: FPath| #[trigger] is_file(t, root, f) && file_module(f, m) }
pub open spec fn file_module(f: FPath, m: GrammarModule) -> bool
    decreases m, 3int,
{ file_text(f) is Some && grammar_of(file_text(f)->0) is Some && reads_module(grammar_of(file_text(f)->0)->0, f, m) }
pub open spec fn good_cache(c: Map<FPath, GrammarModule>) -> bool { forall |f: FPath| #[trigger] c.contains_key(f) ==> file_module(f, c[f]) }
//@assume on
//@free meta mod_path_to_fs_path
    requires of_file(root.refd()@),
    ensures resolvable(strings(mod_path@)) ==> r@ == module_file(root.refd()@, strings(mod_path@)),
//@end
//@assume off
pub open spec fn said_file(t: Tree, n: int, f: Option<String>) -> bool {
    match last_of(t.kids, n, Rule::string) { Some(s) => f matches Some(x) && decode(body(s.text, 1)) == Some(x@), None => f is None }
}
pub open spec fn said_alias(t: Tree, n: int, a: Option<&str>) -> bool {
    match last_of(t.kids, n, Rule::identifier) { Some(s) => a matches Some(x) && x@ == s.text, None => a is None }
}
pub open spec fn so_far(s: Seq<Tree>, i: int, root: FPath, m: GrammarModule) -> bool {
    reads_docs(s.take(i), m.doc.grammar_doc@) && reads_rules(s.take(i), m.rules@) && reads_imports(s.take(i), root, m)
}
pub proof fn only_step(s: Seq<Tree>, i: int, r: Rule)
    requires 0 <= i < s.len(),
    ensures only(s.take(i + 1), r) == (if s[i].rule == r { only(s.take(i), r).push(s[i]) } else { only(s.take(i), r) }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// one more pair
pub open spec fn adds(p: Tree, root: FPath, m: GrammarModule, w: GrammarModule) -> bool {
    let same_docs = w.doc.grammar_doc@ == m.doc.grammar_doc@;
    let same_rules = w.rules@ == m.rules@;
    let same_imports = w.imports@ == m.imports@;
    match p.rule {
        Rule::import => same_docs && same_rules && w.imports@.len() == m.imports@.len() + 1 && w.imports@ == m.imports@.push(w.imports@.last()) && reads_import(p, root, w.imports@.last()),
        Rule::grammar_rule => same_docs && same_imports && w.rules@.len() == m.rules@.len() + 1 && w.rules@ == m.rules@.push(w.rules@.last()) && reads_rule(p, w.rules@.last()),
        Rule::grammar_doc => same_rules && same_imports && w.doc.grammar_doc@.len() == m.doc.grammar_doc@.len() + 1 && w.doc.grammar_doc@ == m.doc.grammar_doc@.push(w.doc.grammar_doc@.last())
            && w.doc.grammar_doc@.last()@ == trimmed(p.text.skip(3)),
        _ => same_docs && same_rules && same_imports,
    }
}
pub proof fn module_step(s: Seq<Tree>, i: int, root: FPath, m: GrammarModule, w: GrammarModule)
    requires 0 <= i < s.len(), so_far(s, i, root, m), adds(s[i], root, m, w),
    ensures so_far(s, i + 1, root, w),
{
    hide(shaped); hide(reads_rule); hide(only);
    only_step(s, i, Rule::import);
    only_step(s, i, Rule::grammar_rule);
    only_step(s, i, Rule::grammar_doc);
    if s[i].rule is grammar_doc { assert(strings(w.doc.grammar_doc@) =~= strings(m.doc.grammar_doc@).push(w.doc.grammar_doc@.last()@));
        assert(only(s.take(i), Rule::grammar_doc).push(s[i]).map_values(|t: Tree| trimmed(t.text.skip(3))) =~= only(s.take(i), Rule::grammar_doc).map_values(|t: Tree| trimmed(t.text.skip(3))).push(trimmed(s[i].text.skip(3)))); }
}
pub open spec fn empty_module(m: GrammarModule) -> bool { m.rules@.len() == 0 && m.doc.grammar_doc@.len() == 0 && m.imports@.len() == 0 }
pub proof fn module_ends(s: Seq<Tree>, root: FPath)
    ensures
        forall |m: GrammarModule| empty_module(m) ==> #[trigger] so_far(s, 0, root, m),
        forall |m: GrammarModule| so_far(s, s.len() as int, root, m) ==> #[trigger] reads_module(s, root, m),
{
    assert(s.take(0).len() == 0);
    assert(s.take(s.len() as int) =~= s);
    assert forall |m: GrammarModule| empty_module(m) implies #[trigger] so_far(s, 0, root, m) by {
        assert(strings(m.doc.grammar_doc@) =~= Seq::<Tree>::empty().map_values(|t: Tree| trimmed(t.text.skip(3))));
    }
}
pub mod rd {
    use super::*;
    pub broadcast proof fn some_file(t: Tree, root: FPath, f: FPath, m: GrammarModule)
        requires is_file(t, root, f), file_module(f, m),
        ensures #![trigger of_some_file(t, root, m), file_module(f, m)] of_some_file(t, root, m),
    { }
    pub broadcast proof fn from_file(f: FPath, m: GrammarModule)
        requires file_text(f) is Some, grammar_of(file_text(f)->0) is Some, reads_module(grammar_of(file_text(f)->0)->0, f, m),
        ensures #![trigger reads_module(grammar_of(file_text(f)->0)->0, f, m)] file_module(f, m),
    { }
}
pub proof fn pair_facts(t: Tree)
    requires top_shape(t),
    ensures shaped(t), local_shape(t), t.rule is import ==> import_shape(t) && path_names(t.kids[0].kids).len() > 0, forall |i: int| 0 <= i < t.kids.len() ==> shaped(#[trigger] t.kids[i]) && local_shape(t.kids[i]),
{ hide(bad); tree::top(t); assert forall |i: int| 0 <= i < t.kids.len() implies shaped(#[trigger] t.kids[i]) && local_shape(t.kids[i]) by { tree::kid(t, i); tree::top(t.kids[i]); } }
//@free meta _parse
    requires of_file(root.refd()@), good_cache(old(cache)@),
    ensures
        good_cache(final(cache)@),
        r matches Ok(m) ==> grammar_of(input@) matches Some(t) && reads_module(t, root.refd()@, *m),
//@noiso
//@halts
//@start
hide(shaped); hide(bad); hide(reads_rule); hide(so_far); hide(adds); hide(only); hide(decode); hide(reads_module);
broadcast use {axiom_ref, axiom_file, rd::from_file, rd::some_file};
let ghost t = grammar_of(input@)->0;
let ghost to = root.refd()@;
proof { module_ends(t, to); }
//@loop 0
    invariant
        views(it0.seq()) == t, good_cache(cache@), so_far(t, it0.index@ as int, to, res),
//@loopstart 0
let ghost m0 = res;
let ghost p0 = t[it0.index@ as int];
proof { assert(views(it0.seq())[it0.index@ as int] == it0.seq()[it0.index@ as int]@); pair_facts(p0); }
//@loopend 0
proof { assert(adds(p0, to, m0, res)) by {
        reveal(adds);
        if p0.rule is import {
            let x = res.imports@.last();
            assert(res.imports@ == m0.imports@.push(x));
            let b = x->File_1;
            let m = *b;
            assert(x is File ==> of_some_file(p0, to, m));
            assert(reads_import(p0, to, x));
        }
    } module_step(t, it0.index@ as int, to, m0, res); }
//@loop 1
    invariant
        views(it1.seq()) == p0.kids.skip(1), said_file(p0, it1.index@ as int + 1, fs_path), said_alias(p0, it1.index@ as int + 1, alias),
//@loopstart 1
proof { assert(views(it1.seq())[it1.index@ as int] == it1.seq()[it1.index@ as int]@); }
//@end
//@free meta parse
    requires of_file(root.refd()@),
    ensures
        r matches Ok(m) ==> grammar_of(input@) matches Some(t) && reads_module(t, root.refd()@, *m),
//@end
