// pest3_generator: the rules that paths lead to
//@path String String
//@rename clone 0 vx_clone
//@rename enumerate 0 vx_enumerate
//@rename contains 1 vx_contains
//@rename unwrap 0 vx_unwrap
//@rename cloned 0 vx_cloned
//@rename fn:f 1 vx_call
//@rename ok_or_else 1 vx_ok_or
//@rename ok_or 1 vx_ok_or
//@rename mk_ident 1 vx_ident
//@modules parser generator
//@known resolve content content_i contents optional choice join GetterByName::default GetterByName::from_generics_arg GetterByName::from_rule process_expr ProcessedPathArgs::process ModuleError::check_argc
//@path BTreeSet BTreeSet
//@path BTreeMap BTreeMap
//@ident ParseNode ParseNode
// ---------------------------------------------------------------- modules
use std::rc::Rc;
use vstd::std_specs::iter::IteratorSpec;
pub open spec fn own<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub trait VxIndex<R> { type Out: ?Sized; fn vx_index(&self, r: R) -> &Self::Out; }
impl<'g> VxIndex<Range<usize>> for Vec<&'g str> {
    type Out = [&'g str];
    #[verifier::external_body]
    fn vx_index(&self, r: Range<usize>) -> (o: &[&'g str])
        ensures r.start <= r.end <= self@.len(), o@ == self@.subrange(r.start as int, r.end as int),
    { unimplemented!() }
}
//@item generator ModuleError
impl<'g> RuleRef<'g> {
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: RuleRef<'g>) ensures r == *self, { unimplemented!() }
}
//@item generator RuleGenerics
/// TRUSTED: the types of the built-in Unicode rules
#[verifier::external_body] pub struct VxFn<'g> { s: &'g str }
pub uninterp spec fn fn_type(f: VxFn, root: Ts) -> Ts;
impl<'g> VxFn<'g> {
    #[verifier::external_body] pub fn vx_call(&self, root: &TokenStream) -> (r: Intermediate<'g>) ensures r.typename@ == fn_type(*self, root@), { unimplemented!() }
}
/// TRUSTED: `HashMap`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
#[verifier::external_body]
pub struct Keys { s: u8 }
impl Keys {
    #[verifier::external_body] pub fn vx_cloned(self) -> (r: Keys) { unimplemented!() }
    #[verifier::external_body] pub fn collect<'g>(self) -> (r: Vec<&'g str>) { unimplemented!() }
}
impl<'g, V> HashMap<&'g str, V> {
    pub uninterp spec fn view(&self) -> Map<Name, V>;
    #[verifier::external_body]
    pub fn vx_get(&self, q: &str) -> (r: Option<&V>)
        ensures r is Some == self@.dom().contains(q@), r is Some ==> *r->0 == self@[q@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'g str, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r is Some == old(self)@.dom().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Keys) { unimplemented!() }
}
/// (the enum of /repo with the types above in place of `HashMap` and `Box<dyn Fn>`)
pub enum ModuleNode<'g> { Collection(HashMap<&'g str, Rc<ModuleNode<'g>>>), Generics(RuleGenerics), Absolute(VxFn<'g>) }
//@item generator ModuleSystem
pub trait VxOkOr<T>: Sized { fn vx_ok_or<E>(self, e: E) -> Result<T, E>; }
impl<T> VxOkOr<T> for Option<T> {
    fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>)
        ensures match self { Some(x) => r == Ok::<T, E>(x), None => r == Err::<T, E>(e) },
    { match self { Some(x) => Ok(x), None => Err(e) } }
}
pub trait VxCloned<T> { fn vx_cloned(self) -> Option<T>; }
impl<'a, T> VxCloned<Rc<T>> for Option<&'a Rc<T>> {
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Option<Rc<T>>)
        ensures r is Some == self is Some, r is Some ==> r->0 == *self->0,
    { unimplemented!() }
}
/// the type a rule stands for, used by the name `name` at the end of `path` with these arguments
pub open spec fn generic_type(g: RuleGenerics, name: Name, path: Seq<Name>, args: Args, root: Ts) -> Option<Ts> {
    match g {
        RuleGenerics::Rule { argc } => match args {
            Args::No => if argc == 0 { Some(rule_ts(path, name).colon2().lt().life("'i").gt()) } else { None },
            Args::Call(u) => if u.len() != argc { None } else if argc == 0 { Some(rule_ts(path, name).colon2().lt().life("'i").gt()) }
                else { Some(cat(rule_ts(path, name).colon2().lt().life("'i").comma(), listed(u)).gt()) },
            Args::Slice(_) => None,
        },
        RuleGenerics::BuiltIn { name, direct, slice, callable } => match args {
            Args::No => match direct { None => None, Some(l) => if l.0 { Some(node_type(root, name1("r#", name@)).colon2().lt().life("'i").gt()) } else { Some(node_type(root, name1("r#", name@))) } },
            Args::Slice(s) => match slice { None => None, Some(n) => match s.end {
                Some(e) => Some(node_type(root, name0(n.1@)).colon2().lt().int(from_of(s)).comma().int(e).gt()),
                None => Some(node_type(root, name0(n.0@)).colon2().lt().int(from_of(s)).gt()),
            } },
            Args::Call(u) => match callable { None => None, Some(n) => if n.0 is Some && n.0->0 != u.len() { None }
                else { Some(cat(node_type(root, name1("r#", name@)).colon2().lt(), listed(u)).gt()) } },
        },
    }
}
pub open spec fn from_of(s: PRange<isize>) -> isize { match s.start { Some(a) => a, None => 0isize } }
/// `root::generics::name`
pub open spec fn node_type(root: Ts, name: Name) -> Ts { root.colon2().add(generics_ts()).colon2().name(name) }
pub open spec fn name0(n: Name) -> Name { Seq::empty() + n }
pub open spec fn supers(path: Seq<Name>) -> Seq<Ts> { Seq::new((path.len() - 1) as nat, |i: int| ts0().name(name0(path[i])).colon2().id("rules").colon2()) }
/// all of them one after the other
pub open spec fn joined(v: Seq<Ts>) -> Ts
    decreases v.len(),
{ if v.len() == 0 { ts0() } else { cat(joined(v.drop_last()), v.last()) } }
pub proof fn joined_next(v: Seq<Ts>, k: int)
    requires 0 <= k < v.len(),
    ensures joined(v.take(k + 1)) == cat(joined(v.take(k)), v[k]),
{ assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]); }
/// the modules of the path and then the rule
pub open spec fn rule_ts(path: Seq<Name>, name: Name) -> Ts { joined(supers(path)).name(name1("r#", name)) }
/// the node the path leads to from `n`
pub open spec fn walk<'g>(n: ModuleNode<'g>, path: Seq<Name>) -> Option<ModuleNode<'g>>
    decreases path.len(),
{
    if path.len() == 0 { None } else {
        match (if path.len() == 1 { Some(n) } else { walk(n, path.drop_last()) }) {
            Some(ModuleNode::Collection(m)) => if m@.dom().contains(path.last()) { Some(*m@[path.last()]) } else { None },
            _ => None,
        }
    }
}
/// built-in rules first, then those of the grammar and its imports
pub open spec fn resolved<'g>(m: &ModuleSystem<'g>, path: Seq<Name>) -> Option<ModuleNode<'g>> {
    match walk(*m.pest, path) { Some(n) => Some(n), None => walk(m.root, path) }
}
/// the type a path with these arguments stands for
pub open spec fn path_type(m: &ModuleSystem, path: Seq<Name>, args: Args, root: Ts) -> Option<Ts> {
    match resolved(m, path) {
        Some(ModuleNode::Generics(g)) => generic_type(g, path.last(), path, args, root),
        Some(ModuleNode::Absolute(f)) => match args { Args::No => Some(fn_type(f, root)), Args::Call(u) => if u.len() == 0 { Some(fn_type(f, root)) } else { None }, _ => None },
        _ => None,
    }
}
//@open generator impl ModuleError
//@fn check_argc
    ensures r is Ok == (argc == args),
//@close
//@open generator impl RuleGenerics
//@fn call
    requires rule_ref.path@.len() > 0,
    ensures
        match generic_type(*self, name_str@, names_r(rule_ref.path@), args_of(own(args)), root@) { Some(t) => r is Ok && r->Ok_0.typename@ == t, None => r is Err },
//@start
broadcast use {ts::norm, take_full};
let ghost sup = supers(names_r(rule_ref.path@));
let ghost at = match args_of(own(args)) { Args::Call(u) => u, _ => seq![] };
let ghost rts = rule_ts(names_r(rule_ref.path@), name_str@);
let ghost vx_name = name1("r#", match *self { RuleGenerics::Rule { .. } => name_str@, RuleGenerics::BuiltIn { name, .. } => name@ });
//@loop 0
    invariant
        it0.seq().len() == sup.len(), forall |i: int| 0 <= i < sup.len() ==> (#[trigger] it0.seq()[i])@ == rule_ref.path@[i]@,
        tss(vx_out0) =~= sup.take(it0.index@ as int),
//@loopstart 0
broadcast use {ts::norm, push_map};
proof { take_next(sup, it0.index@ as int, tss(vx_out0)); }
//@loop 1
    invariant
        it1.seq().len() == sup.len(), forall |i: int| 0 <= i < sup.len() ==> (#[trigger] it1.seq()[i])@ == sup[i],
        _s@ == joined(sup.take(it1.index@ as int)),
//@loopstart 1
broadcast use ts::norm;
proof { joined_next(sup, it1.index@ as int); }
//@loop 2
    invariant
        it2.seq().len() == sup.len(), forall |i: int| 0 <= i < sup.len() ==> (#[trigger] it2.seq()[i])@ == sup[i],
        _s@ == joined(sup.take(it2.index@ as int)),
//@loopstart 2
broadcast use ts::norm;
proof { joined_next(sup, it2.index@ as int); }
//@loop 3
    invariant
        it3.seq().len() == sup.len(), forall |i: int| 0 <= i < sup.len() ==> (#[trigger] it3.seq()[i])@ == sup[i],
        _s@ == joined(sup.take(it3.index@ as int)),
//@loopstart 3
broadcast use ts::norm;
proof { joined_next(sup, it3.index@ as int); }
//@loop 4
    invariant
        it4.seq().len() == at.len(), forall |i: int| 0 <= i < at.len() ==> (#[trigger] it4.seq()[i]).typename@ == at[i],
        _s@ == cat(rts.colon2().lt().life("'i").comma(), listed(at.take(it4.index@ as int))),
//@loopstart 4
broadcast use ts::norm;
proof { listed_next(at, it4.index@ as int); }
//@loop 5
    invariant
        it5.seq().len() == at.len(), forall |i: int| 0 <= i < at.len() ==> (#[trigger] it5.seq()[i]).typename@ == at[i],
        _s@ == cat(node_type(root@, vx_name).colon2().lt(), listed(at.take(it5.index@ as int))),
//@loopstart 5
broadcast use ts::norm;
proof { listed_next(at, it5.index@ as int); }
//@noiso
//@close
//@open generator impl ModuleNode
//@fn child
    ensures match walk(*self, seq![node@]) { Some(n) => r is Ok && *r->Ok_0 == n, None => r is Err },
//@close
//@open generator impl ModuleNode
//@fn get
    requires rule_ref.path@.len() > 0,
    ensures
        match *self {
            ModuleNode::Collection(_) => r is Err,
            ModuleNode::Generics(g) => match generic_type(g, node@, names_r(rule_ref.path@), args_of(*args), root@) { Some(t) => r is Ok && r->Ok_0.typename@ == t, None => r is Err },
            ModuleNode::Absolute(f) => match args_of(*args) { Args::No => r is Ok && r->Ok_0.typename@ == fn_type(f, root@), Args::Call(u) => if u.len() == 0 { r is Ok && r->Ok_0.typename@ == fn_type(f, root@) } else { r is Err }, _ => r is Err },
        },
//@close
#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized { type ExternalTraitSpecificationFor: core::convert::AsRef<T>; }
/// what an `AsRef<str>` refers to
pub uninterp spec fn as_name<T: ?Sized>(t: &T) -> Name;
pub broadcast axiom fn as_name_str(s: &str) ensures #[trigger] as_name::<&str>(&s) == s@;
pub open spec fn as_names<T>(v: Seq<T>) -> Seq<Name> { v.map_values(|t: T| as_name(&t)) }
pub open spec fn by_ref<T>(v: Seq<&T>) -> Seq<Name> { v.map_values(|t: &T| as_name::<T>(t)) }
/// `.map(AsRef::as_ref)`
pub trait VxAsRefs<'a>: Sized {
    #[verifier::prophetic]
    spec fn names_in(self) -> Seq<Name>;
    fn vx_as_refs(self) -> (r: std::vec::IntoIter<&'a str>)
        ensures names_r(r.remaining()) == self.names_in(), r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some;
}
impl<'a, T: AsRef<str>> VxAsRefs<'a> for std::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn names_in(self) -> Seq<Name> { by_ref(self.remaining()) }
    #[verifier::external_body]
    fn vx_as_refs(self) -> (r: std::vec::IntoIter<&'a str>) { unimplemented!() }
}
pub broadcast proof fn names_by<T>(v: Seq<T>, w: Seq<&T>)
    requires v.len() == w.len(), forall |i: int| 0 <= i < v.len() ==> *(#[trigger] w[i]) == v[i],
    ensures #[trigger] by_ref(w) == #[trigger] as_names(v),
{ assert(by_ref(w) =~= as_names(v)); }
pub broadcast proof fn names_as(v: Seq<&str>)
    ensures #[trigger] as_names(v) == names_r(v),
{ broadcast use as_name_str; assert(as_names(v) =~= names_r(v)); }
/// the first name and the others
pub open spec fn path_of(a: Name, rest: Seq<&str>) -> Seq<Name> { seq![a] + names_r(rest) }
pub proof fn walk_next<'g>(n: ModuleNode<'g>, p: Seq<Name>, k: int)
    requires 1 <= k < p.len(),
    ensures walk(n, p.take(k + 1)) == match walk(n, p.take(k)) { Some(c) => walk(c, seq![p[k]]), None => None },
{
    assert(p.take(k + 1).drop_last() =~= p.take(k)); assert(p.take(k + 1).last() == p[k]);
    assert(seq![p[k]].last() == p[k]);
}
pub proof fn walk_none<'g>(n: ModuleNode<'g>, p: Seq<Name>, k: int)
    requires 1 <= k <= p.len(), walk(n, p.take(k)) is None,
    ensures walk(n, p) is None,
    decreases p.len() - k,
{ if k < p.len() { walk_next(n, p, k); walk_none(n, p, k + 1); } else { assert(p.take(k) =~= p); } }
pub broadcast proof fn take_path(a: Name, rest: Seq<&str>, k: int)
    requires k == rest.len() + 1,
    ensures #[trigger] path_of(a, rest).take(k) == path_of(a, rest),
{ assert(path_of(a, rest).take(k) =~= path_of(a, rest)); }
pub proof fn walk_starts<'g>(n: ModuleNode<'g>, all: Seq<&str>)
    ensures all.len() > 0 ==> names_r(all).take(1) == seq![all[0]@] && path_of(all[0]@, all.drop_first()) == names_r(all) && (walk(n, seq![all[0]@]) is None ==> walk(n, names_r(all)) is None),
{
    if all.len() > 0 {
        assert(path_of(all[0]@, all.drop_first()) =~= names_r(all)); assert(names_r(all).take(1) =~= seq![all[0]@]);
        if walk(n, seq![all[0]@]) is None { walk_none(n, names_r(all), 1); }
    }
}
pub proof fn walk_goes_on<'g>(n: ModuleNode<'g>, p: Seq<Name>, k: int)
    requires 1 <= k < p.len(),
    ensures
        walk(n, p.take(k + 1)) == match walk(n, p.take(k)) { Some(c) => walk(c, seq![p[k]]), None => None },
        walk(n, p.take(k + 1)) is None ==> walk(n, p) is None,
{ walk_next(n, p, k); if walk(n, p.take(k + 1)) is None { walk_none(n, p, k + 1); } }
//@open generator impl ModuleNode
//@fn resolve_node
    requires iter.obeys_prophetic_iter_laws(), iter.will_return_none(), iter.decrease() is Some,
    ensures match walk(*self, names_r(iter.remaining())) { Some(n) => r is Ok && *r->Ok_0 == n, None => r is Err },
//@start
broadcast use take_path;
let ghost vx_i = iter;
proof { walk_starts(*self, iter.remaining()); }
//@loop 0
    invariant
        it0.iter.obeys_prophetic_iter_laws(), it0.iter.will_return_none(), it0.iter.decrease() is Some,
        it0.snapshot@.obeys_prophetic_iter_laws(), it0.seq() == it0.snapshot@.remaining(), it0.iter.remaining() == it0.seq().skip(it0.index@ as int),
        path_of(first@, it0.seq()) == names_r(vx_i.remaining()),
        walk(*self, path_of(first@, it0.seq()).take(it0.index@ + 1)) == Some(*rc),
//@loopstart 0
proof { walk_goes_on(*self, path_of(first@, it0.seq()), it0.index@ + 1); }
//@noiso
//@close
//@open generator impl ModuleSystem
//@fn resolve_node
    ensures match resolved(self, as_names(iter@)) { Some(n) => r is Ok && *r->Ok_0 == n, None => r is Err },
//@start
broadcast use names_by;
//@fn resolve
    ensures match path_type(self, names_r(rule_ref.path@), args_of(rule_ref.args), root@) { Some(t) => r is Ok && r->Ok_0.typename@ == t, None => r is Err },
//@start
broadcast use names_as;
//@close
