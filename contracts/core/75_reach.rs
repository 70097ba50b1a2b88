// pest3_generator: which rules refer to which, and which are boxed for it
//@path String String
//@rename clone 0 vx_clone
//@rename extend 1 vx_extend
//@rename find 1 vx_find
//@rename iter 0 vx_iter
//@rename cloned 0 vx_cloned
//@rename to_string 0 vx_to_string
//@modules parser generator
//@path BTreeSet BTreeSet
//@path BTreeMap BTreeMap
//@ident ParseNode ParseNode
pub type Name = Seq<char>;
/// TRUSTED: sets and maps of names (`alloc::collections`), as sets and maps of their characters
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { s: std::collections::BTreeSet<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
pub trait VxKey { spec fn key(&self) -> Name; }
impl VxKey for str { open spec fn key(&self) -> Name { self@ } }
impl<'a> VxKey for &'a str { open spec fn key(&self) -> Name { self@ } }
impl VxKey for String { open spec fn key(&self) -> Name { self@ } }
/// several names
pub trait VxNames { spec fn names(&self) -> Set<Name>; }
#[verifier::external_body]
pub struct SetIter<'a, 'g> { s: &'a BTreeSet<&'g str> }
impl<'a, 'g> SetIter<'a, 'g> {
    pub uninterp spec fn of(&self) -> Set<Name>;
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: Self)
        ensures r.of() == self.of(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: Self)
        ensures r.of() == self.of(),
    { unimplemented!() }
}
impl<'a, 'g> VxNames for SetIter<'a, 'g> { open spec fn names(&self) -> Set<Name> { self.of() } }
impl<'a, 'g> VxNames for &'a BTreeSet<&'g str> { open spec fn names(&self) -> Set<Name> { self@ } }
impl<'g> VxNames for BTreeSet<&'g str> { open spec fn names(&self) -> Set<Name> { self@ } }
impl<'g> BTreeSet<&'g str> {
    pub uninterp spec fn view(&self) -> Set<Name>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<Name>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'g str) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VxKey + ?Sized>(&self, q: &Q) -> (r: bool)
        ensures r == self@.contains(q.key()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: SetIter<'_, 'g>)
        ensures r.of() == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend<I: VxNames>(&mut self, i: I)
        ensures final(self)@ == old(self)@.union(i.names()),
    { unimplemented!() }
}
/// TRUSTED: iterating over a set visits each element
impl<'g> IntoIterator for BTreeSet<&'g str> {
    type Item = &'g str;
    type IntoIter = std::vec::IntoIter<&'g str>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<&'g str>)
        ensures
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
            forall |n: Name| #[trigger] self@.contains(n) ==> exists |i: int| 0 <= i < vstd::std_specs::iter::IteratorSpec::remaining(&r).len() && (#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)[i])@ == n,
    { unimplemented!() }
}
impl<'g> BTreeMap<&'g str, BTreeSet<&'g str>> {
    pub uninterp spec fn view(&self) -> Map<Name, Set<Name>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Name, Set<Name>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or_default<'a>(&'a mut self, k: &'g str) -> (r: &'a mut BTreeSet<&'g str>)
        ensures
            r@ == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { Set::empty() }),
            final(self)@ == old(self)@.insert(k@, final(r)@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'g str, v: BTreeSet<&'g str>) -> (r: Option<BTreeSet<&'g str>>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxKey + ?Sized>(&mut self, q: &Q) -> (r: Option<BTreeSet<&'g str>>)
        ensures
            final(self)@ == old(self)@.remove(q.key()),
            r is Some == old(self)@.dom().contains(q.key()), r is Some ==> r->0@ == old(self)@[q.key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get<Q: VxKey + ?Sized>(&self, q: &Q) -> (r: Option<&BTreeSet<&'g str>>)
        ensures r is Some == self@.dom().contains(q.key()), r is Some ==> r->0@ == self@[q.key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxKey + ?Sized>(&self, q: &Q) -> (r: bool)
        ensures r == self@.dom().contains(q.key()),
    { unimplemented!() }
}
pub trait VxExtendRefs<'g> { fn vx_extend(&mut self, a: &'g Vec<ParseNode>) where Self: View<V = Seq<&'g ParseNode>> ensures final(self)@ == old(self)@ + refs_of(*a, a@.len()); }
impl<'g> VxExtendRefs<'g> for Vec<&'g ParseNode> {
    #[verifier::external_body]
    fn vx_extend(&mut self, a: &'g Vec<ParseNode>) { self.extend(a) }
}
/// the text of a message
#[verifier::external_body]
pub fn vx_formatted() -> (r: String) { unimplemented!() }
//@item meta ParseRule
/// some use of the rule (or parameter) `n` by its name alone
pub open spec fn mentions(e: ParseExpr, n: Name) -> bool
    decreases e,
{
    match e {
        ParseExpr::Path(p, Some(PathArgs::Call(a))) => (p@.len() == 1 && p@[0]@ == n) || exists |i: int| 0 <= i < a@.len() && mentions((#[trigger] a@[i]).expr, n),
        ParseExpr::Path(p, _) => p@.len() == 1 && p@[0]@ == n,
        ParseExpr::PosPred(x) => mentions(x.expr, n), ParseExpr::NegPred(x) => mentions(x.expr, n), ParseExpr::Opt(x) => mentions(x.expr, n), ParseExpr::Rep(x) => mentions(x.expr, n),
        ParseExpr::RepOnce(x) => mentions(x.expr, n), ParseExpr::RepRange(x, _) => mentions(x.expr, n), ParseExpr::Separated(x, _) => mentions(x.expr, n),
        ParseExpr::Choice(x, u) => mentions(x.expr, n) || mentions(u.expr, n), ParseExpr::Seq(x, u, _) => mentions(x.expr, n) || mentions(u.expr, n),
        _ => false,
    }
}
/// some operator with that trivia
pub open spec fn triv(e: ParseExpr, t: Trivia) -> bool
    decreases e,
{
    match e {
        ParseExpr::Path(p, Some(PathArgs::Call(a))) => exists |i: int| 0 <= i < a@.len() && triv((#[trigger] a@[i]).expr, t),
        ParseExpr::PosPred(x) => triv(x.expr, t), ParseExpr::NegPred(x) => triv(x.expr, t), ParseExpr::Opt(x) => triv(x.expr, t), ParseExpr::Rep(x) => triv(x.expr, t),
        ParseExpr::RepOnce(x) => triv(x.expr, t), ParseExpr::RepRange(x, _) => triv(x.expr, t), ParseExpr::Separated(x, u) => u == t || triv(x.expr, t),
        ParseExpr::Choice(x, u) => triv(x.expr, t) || triv(u.expr, t), ParseExpr::Seq(x, u, k) => k == t || triv(x.expr, t) || triv(u.expr, t),
        _ => false,
    }
}
pub open spec fn size(e: ParseExpr) -> nat
    decreases e, 0nat,
{
    match e {
        ParseExpr::Path(p, Some(PathArgs::Call(a))) => 1 + size_args(a, a@.len()),
        ParseExpr::PosPred(x) => 1 + size(x.expr), ParseExpr::NegPred(x) => 1 + size(x.expr), ParseExpr::Opt(x) => 1 + size(x.expr), ParseExpr::Rep(x) => 1 + size(x.expr),
        ParseExpr::RepOnce(x) => 1 + size(x.expr), ParseExpr::RepRange(x, _) => 1 + size(x.expr), ParseExpr::Separated(x, _) => 1 + size(x.expr),
        ParseExpr::Choice(x, u) => 1 + size(x.expr) + size(u.expr), ParseExpr::Seq(x, u, _) => 1 + size(x.expr) + size(u.expr),
        _ => 1,
    }
}
pub open spec fn size_args(a: Vec<ParseNode>, n: nat) -> nat
    decreases a, n,
{ if n == 0 || n > a@.len() { 0 } else { size_args(a, (n - 1) as nat) + size(a@[n - 1].expr) } }
/// the nodes still to visit
pub open spec fn some_mentions(s: Seq<&ParseNode>, n: Name) -> bool
    decreases s.len(),
{ s.len() > 0 && (some_mentions(s.drop_last(), n) || mentions(s.last().expr, n)) }
pub open spec fn some_triv(s: Seq<&ParseNode>, t: Trivia) -> bool
    decreases s.len(),
{ s.len() > 0 && (some_triv(s.drop_last(), t) || triv(s.last().expr, t)) }
pub open spec fn total(s: Seq<&ParseNode>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + size(s.last().expr) } }
pub broadcast proof fn lemma_size(e: ParseExpr)
    ensures #[trigger] size(e) > 0,
{ reveal_with_fuel(size, 2); }
pub proof fn lemma_size_args(a: Vec<ParseNode>, n: nat, i: int)
    requires 0 <= i < n <= a@.len(),
    ensures size(a@[i].expr) <= size_args(a, n),
    decreases n,
{ if i < n - 1 { lemma_size_args(a, (n - 1) as nat, i); } }
pub open spec fn refs_of(a: Vec<ParseNode>, n: nat) -> Seq<&'static ParseNode> { Seq::new(n, |i: int| &a@[i]) }
pub broadcast proof fn lemma_push(s: Seq<&ParseNode>, x: &ParseNode)
    ensures
        total(#[trigger] s.push(x)) == total(s) + size(x.expr),
        forall |n: Name| #[trigger] some_mentions(s.push(x), n) == (some_mentions(s, n) || mentions(x.expr, n)),
        forall |t: Trivia| #[trigger] some_triv(s.push(x), t) == (some_triv(s, t) || triv(x.expr, t)),
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_none(s: Seq<&ParseNode>)
    requires s.len() == 0,
    ensures total(s) == 0, forall |n: Name| !some_mentions(s, n), forall |t: Trivia| !some_triv(s, t),
{ }
/// taking the last node
pub proof fn lemma_pop(s: Seq<&ParseNode>)
    requires s.len() > 0,
    ensures
        total(s) == total(s.drop_last()) + size(s.last().expr),
        forall |n: Name| #[trigger] some_mentions(s, n) == (some_mentions(s.drop_last(), n) || mentions(s.last().expr, n)),
        forall |t: Trivia| #[trigger] some_triv(s, t) == (some_triv(s.drop_last(), t) || triv(s.last().expr, t)),
{ }
/// adding the arguments of a call
pub broadcast proof fn lemma_extend(s: Seq<&ParseNode>, a: Vec<ParseNode>, k: nat)
    requires k <= a@.len(),
    ensures
        forall |i: int| 0 <= i < k ==> size((#[trigger] a@[i]).expr) <= size_args(a, k),
        total(#[trigger] (s + refs_of(a, k))) == total(s) + size_args(a, k),
        forall |n: Name| #[trigger] some_mentions(s + refs_of(a, k), n) == (some_mentions(s, n) || exists |i: int| 0 <= i < k && mentions((#[trigger] a@[i]).expr, n)),
        forall |t: Trivia| #[trigger] some_triv(s + refs_of(a, k), t) == (some_triv(s, t) || exists |i: int| 0 <= i < k && triv((#[trigger] a@[i]).expr, t)),
    decreases k,
{
    if k == 0 { assert(s + refs_of(a, 0) =~= s); }
    else {
        let j = (k - 1) as nat;
        lemma_extend(s, a, j);
        let u = s + refs_of(a, k);
        assert(u.drop_last() =~= s + refs_of(a, j));
        assert(*u.last() == a@[j as int]);
        assert forall |n: Name| #[trigger] some_mentions(u, n) == (some_mentions(s, n) || exists |i: int| 0 <= i < k && mentions((#[trigger] a@[i]).expr, n)) by {
            let e = a@[j as int];
            assert(some_mentions(u, n) == (some_mentions(s + refs_of(a, j), n) || mentions(e.expr, n)));
            if mentions(e.expr, n) { assert(exists |i: int| 0 <= i < k && mentions((#[trigger] a@[i]).expr, n)); }
            if some_mentions(s + refs_of(a, j), n) && !some_mentions(s, n) { let i = choose |i: int| 0 <= i < j && mentions((#[trigger] a@[i]).expr, n); assert(mentions(a@[i].expr, n)); }
        }
        assert forall |n: Trivia| #[trigger] some_triv(u, n) == (some_triv(s, n) || exists |i: int| 0 <= i < k && triv((#[trigger] a@[i]).expr, n)) by {
            let e = a@[j as int];
            assert(some_triv(u, n) == (some_triv(s + refs_of(a, j), n) || triv(e.expr, n)));
            if triv(e.expr, n) { assert(exists |i: int| 0 <= i < k && triv((#[trigger] a@[i]).expr, n)); }
            if some_triv(s + refs_of(a, j), n) && !some_triv(s, n) { let i = choose |i: int| 0 <= i < j && triv((#[trigger] a@[i]).expr, n); assert(triv(a@[i].expr, n)); }
        }
    }
}
/// TRUSTED: the derived equality of expressions relates trees of one shape
pub uninterp spec fn same_tree(a: ParseNode, b: ParseNode) -> bool;
pub broadcast axiom fn axiom_same_tree(a: ParseNode, b: ParseNode)
    ensures #[trigger] same_tree(a, b) ==> size(a.expr) == size(b.expr);
impl PartialEqSpecImpl for ParseNode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { same_tree(*self, *o) }
}
impl PartialEq for ParseNode {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
pub open spec fn small(s: Seq<&ParseNode>, b: nat) -> bool { forall |i: int| 0 <= i < s.len() ==> size((#[trigger] s[i]).expr) < b }
//@free generator collect_used_rule_without_trivia_into
    ensures
        forall |n: Name| #[trigger] mentions(rule.node.expr, n) ==> final(used)@.contains(n),
        old(used)@.subset_of(final(used)@),
        r.0 == triv(rule.node.expr, Trivia::Optional), r.1 == triv(rule.node.expr, Trivia::Mandatory),
//@start
broadcast use axiom_same_tree; broadcast use lemma_extend; broadcast use lemma_size; broadcast use lemma_push;
proof { reveal_with_fuel(size, 2); reveal_with_fuel(mentions, 2); reveal_with_fuel(triv, 2); }
//@loop 0
    invariant
        forall |n: Name| #[trigger] mentions(rule.node.expr, n) ==> used@.contains(n) || some_mentions(nodes@, n),
        old(used)@.subset_of(used@),
        triv(rule.node.expr, Trivia::Optional) == (*used_optional_trivia || some_triv(nodes@, Trivia::Optional)),
        triv(rule.node.expr, Trivia::Mandatory) == (*used_mandatory_trivia || some_triv(nodes@, Trivia::Mandatory)),
        small(nodes@, size(rule.node.expr)),
    decreases total(nodes@),
//@noiso
//@end
//@free generator collect_used_rule_without_trivia
    ensures
        forall |n: Name| #[trigger] mentions(rule.node.expr, n) ==> r.2@.contains(n),
        r.0 == triv(rule.node.expr, Trivia::Optional), r.1 == triv(rule.node.expr, Trivia::Mandatory),
//@end
/// what a rule refers to through the trivia `e`, where `other` is the other trivia and is used under `e` with `t`
pub open spec fn trivia_refs(e: Option<ParseRule>, t: Trivia, other: Option<ParseRule>, n: Name) -> bool {
    e is Some && (mentions(e->0.node.expr, n) || (triv(e->0.node.expr, t) && other is Some && mentions(other->0.node.expr, n)))
}
pub open spec fn opt_rule(o: Option<&ParseRule>) -> Option<ParseRule> { match o { Some(x) => Some(*x), None => None } }
//@free generator collect_trivia
    ensures
        r.0 is Some == opt is Some, r.1 is Some == man is Some,
        forall |n: Name| #[trigger] trivia_refs(opt_rule(opt), Trivia::Mandatory, opt_rule(man), n) ==> r.0->0@.contains(n),
        forall |n: Name| #[trigger] trivia_refs(opt_rule(man), Trivia::Optional, opt_rule(opt), n) ==> r.1->0@.contains(n),
//@end
//@free generator collect_used_rule
    requires
        triv(rule.node.expr, Trivia::Optional) ==> optional_trivia is Some,
        triv(rule.node.expr, Trivia::Mandatory) ==> mandatory_trivia is Some,
    ensures
        old(res)@.subset_of(final(res)@),
        forall |n: Name| #[trigger] mentions(rule.node.expr, n) ==> final(res)@.contains(n),
        triv(rule.node.expr, Trivia::Optional) ==> optional_trivia->0@.subset_of(final(res)@),
        triv(rule.node.expr, Trivia::Mandatory) ==> mandatory_trivia->0@.subset_of(final(res)@),
//@end
/// the first rule of that name
pub open spec fn first(rules: Seq<ParseRule>, n: Name) -> Option<ParseRule>
    decreases rules.len(),
{
    if rules.len() == 0 { None } else {
        match first(rules.drop_last(), n) { Some(r) => Some(r), None => if rules.last().name@ == n { Some(rules.last()) } else { None } }
    }
}
/// TRUSTED: `Iterator::find` on a slice: the first element for which the closure gives true
pub struct RuleIter<'a> { pub rules: &'a [ParseRule] }
pub trait VxIter { fn vx_iter(&self) -> (r: RuleIter<'_>) ensures r.rules@ == self.all(); spec fn all(&self) -> Seq<ParseRule>; }
impl VxIter for [ParseRule] {
    open spec fn all(&self) -> Seq<ParseRule> { self@ }
    fn vx_iter(&self) -> (r: RuleIter<'_>) { RuleIter { rules: self } }
}
impl<'a> RuleIter<'a> {
    #[verifier::external_body]
    pub fn vx_find<F: Fn(&&'a ParseRule) -> bool>(self, f: F) -> (r: Option<&'a ParseRule>)
        requires forall |x: &ParseRule| #[trigger] call_requires(f, (&x,)),
        ensures
            r is Some ==> exists |i: int| 0 <= i < self.rules@.len() && r->0 == #[trigger] self.rules@[i] && call_ensures(f, (&&self.rules@[i],), true) && forall |j: int| 0 <= j < i ==> call_ensures(f, (&&#[trigger] self.rules@[j],), false),
            r is None ==> forall |j: int| 0 <= j < self.rules@.len() ==> call_ensures(f, (&&#[trigger] self.rules@[j],), false),
    { unimplemented!() }
}
pub proof fn lemma_first(rules: Seq<ParseRule>, n: Name, r: Option<ParseRule>)
    requires
        r is Some ==> exists |i: int| 0 <= i < rules.len() && r->0 == #[trigger] rules[i] && rules[i].name@ == n && forall |j: int| 0 <= j < i ==> (#[trigger] rules[j]).name@ != n,
        r is None ==> forall |j: int| 0 <= j < rules.len() ==> (#[trigger] rules[j]).name@ != n,
    ensures first(rules, n) == r,
    decreases rules.len(),
{
    if rules.len() > 0 {
        let l = rules.drop_last();
        assert(forall |j: int| 0 <= j < l.len() ==> l[j] == rules[j]);
        if r is Some {
            let i = choose |i: int| 0 <= i < rules.len() && r->0 == #[trigger] rules[i] && rules[i].name@ == n && forall |j: int| 0 <= j < i ==> (#[trigger] rules[j]).name@ != n;
            if i < l.len() { assert(r->0 == l[i]); lemma_first(l, n, r); } else { lemma_first(l, n, None); }
        } else { lemma_first(l, n, None); }
    }
}
pub open spec fn opt_name() -> Name { "~"@ }
pub open spec fn man_name() -> Name { "^"@ }
/// rule `i` refers to `n`: by name, or because the trivia of one of its operators does
pub open spec fn refers(rules: Seq<ParseRule>, i: int, n: Name) -> bool {
    let e = rules[i].node.expr;
    let (o, m) = (first(rules, opt_name()), first(rules, man_name()));
    mentions(e, n) || (triv(e, Trivia::Optional) && trivia_refs(o, Trivia::Mandatory, m, n)) || (triv(e, Trivia::Mandatory) && trivia_refs(m, Trivia::Optional, o, n))
}
pub open spec fn edge(rules: Seq<ParseRule>, a: Name, b: Name) -> bool { exists |i: int| 0 <= i < rules.len() && (#[trigger] rules[i]).name@ == a && refers(rules, i, b) }
/// a walk along references from rule to rule, all of them (but the last) in `d`
pub open spec fn walk(rules: Seq<ParseRule>, d: Set<Name>, w: Seq<Name>) -> bool {
    w.len() >= 2 && forall |k: int| 0 <= k < w.len() - 1 ==> d.contains(#[trigger] w[k]) && edge(rules, w[k], w[k + 1])
}
/// what is reached in at most `m` steps is recorded
pub open spec fn reached(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, m: int) -> bool {
    forall |w: Seq<Name>| #[trigger] walk(rules, r.dom(), w) && w.len() - 1 <= m ==> r[w[0]].contains(w.last())
}
pub open spec fn reached_from(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, m: int, a: Name) -> bool {
    forall |w: Seq<Name>| #[trigger] walk(rules, r.dom(), w) && w[0] == a && w.len() - 1 <= m ==> r[w[0]].contains(w.last())
}
pub open spec fn named(rules: Seq<ParseRule>, d: Set<Name>) -> bool { forall |n: Name| #[trigger] d.contains(n) ==> exists |i: int| 0 <= i < rules.len() && (#[trigger] rules[i]).name@ == n }
/// index of a rule of that name
pub open spec fn index_of(rules: Seq<ParseRule>, n: Name) -> int { choose |i: int| 0 <= i < rules.len() && (#[trigger] rules[i]).name@ == n }
/// more numbers below `m` than there are: two are the same
pub proof fn lemma_pigeon(s: Seq<int>, m: nat)
    requires s.len() > m, forall |k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < m,
    ensures exists |i: int, j: int| 0 <= i < j < s.len() && s[i] == s[j],
{
    if forall |i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] {
        assert(s.no_duplicates());
        s.unique_seq_to_set();
        let u = vstd::set_lib::set_int_range(0, m as int);
        vstd::set_lib::lemma_int_range(0, m as int);
        assert(s.to_set().subset_of(u));
        vstd::set_lib::lemma_len_subset(s.to_set(), u);
    }
}
/// a closed walk can be shortened to one no longer than there are rules
pub proof fn lemma_short(rules: Seq<ParseRule>, d: Set<Name>, w: Seq<Name>) -> (v: Seq<Name>)
    requires named(rules, d), walk(rules, d, w), w[0] == w.last(),
    ensures walk(rules, d, v), v[0] == v.last(), v.len() - 1 <= rules.len(),
    decreases w.len(),
{
    if w.len() - 1 <= rules.len() { w } else {
        let s = Seq::new((w.len() - 1) as nat, |k: int| index_of(rules, w[k]));
        assert forall |k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] < rules.len() && rules[s[k]].name@ == w[k] by { assert(d.contains(w[k])); }
        lemma_pigeon(s, rules.len());
        let (i, j) = choose |i: int, j: int| 0 <= i < j < s.len() && s[i] == s[j];
        let v = w.subrange(i, j + 1);
        assert forall |k: int| 0 <= k < v.len() - 1 implies d.contains(#[trigger] v[k]) && edge(rules, v[k], v[k + 1]) by { assert(v[k] == w[i + k] && v[k + 1] == w[i + k + 1]); }
        assert(v[0] == w[i] && v.last() == w[j]);
        assert(w[i] == rules[s[i]].name@);
        lemma_short(rules, d, v)
    }
}
/// a step of the closure: `r` with the set of `a` replaced by one that contains it and those of its elements
pub proof fn lemma_step(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, a: Name, new: Set<Name>, m: int)
    requires
        m >= 1, reached(rules, r, m), r.dom().contains(a),
        r[a].subset_of(new),
        forall |q: Name| #[trigger] r[a].contains(q) && q != a && r.dom().contains(q) ==> r[q].subset_of(new),
        !new.contains(a),
    ensures
        reached(rules, r.insert(a, new), m), reached_from(rules, r.insert(a, new), m + 1, a),
{
    let s = r.insert(a, new);
    assert(s.dom() =~= r.dom());
    assert forall |w: Seq<Name>| #[trigger] walk(rules, s.dom(), w) && w.len() - 1 <= m implies s[w[0]].contains(w.last()) by { assert(walk(rules, r.dom(), w)); assert(r[w[0]].contains(w.last())); }
    assert forall |w: Seq<Name>| #[trigger] walk(rules, s.dom(), w) && w[0] == a && w.len() - 1 <= m + 1 implies s[w[0]].contains(w.last()) by {
        if w.len() > 2 {
            let h = w.take(2);
            assert(walk(rules, r.dom(), h)) by { assert(h[0] == w[0] && h[1] == w[1]); { let z = 0int; assert(edge(rules, w[z], w[z + 1])); } }
            assert(r[a].contains(w[1]));
            let t = w.skip(1);
            assert forall |k: int| 0 <= k < t.len() - 1 implies r.dom().contains(#[trigger] t[k]) && edge(rules, t[k], t[k + 1]) by { assert(t[k] == w[k + 1] && t[k + 1] == w[k + 2]); assert(w[k + 1 + 1] == w[k + 2]); }
            assert(walk(rules, r.dom(), t));
            assert(t[0] == w[1] && t.last() == w.last());
            assert(r.dom().contains(w[1]));
        } else { assert(walk(rules, r.dom(), w)); }
    }
}
/// a rule taken out: fewer walks
pub proof fn lemma_drop(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, a: Name, m: int)
    requires reached(rules, r, m),
    ensures reached(rules, r.remove(a), m),
{
    assert forall |w: Seq<Name>| #[trigger] walk(rules, r.remove(a).dom(), w) && w.len() - 1 <= m implies r.remove(a)[w[0]].contains(w.last()) by {
        assert forall |k: int| 0 <= k < w.len() - 1 implies r.dom().contains(#[trigger] w[k]) && edge(rules, w[k], w[k + 1]) by { assert(r.remove(a).dom().contains(w[k])); }
        assert(walk(rules, r.dom(), w));
        assert(r.remove(a).dom().contains(w[0]));
    }
}
/// done with rules `0..j` of a sweep
pub open spec fn swept(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, m: int, j: int) -> bool {
    forall |i: int| 0 <= i < j ==> reached_from(rules, r, m, (#[trigger] rules[i]).name@) && (r.dom().contains(rules[i].name@) ==> !r[rules[i].name@].contains(rules[i].name@))
}
/// every cycle of references goes through a rule that is not recorded (and so boxed)
pub open spec fn cut(rules: Seq<ParseRule>, d: Set<Name>) -> bool {
    forall |w: Seq<Name>| #[trigger] walk(rules, d, w) ==> w[0] != w.last()
}
pub proof fn lemma_cut(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>)
    requires
        named(rules, r.dom()), reached(rules, r, rules.len() as int),
        rules.len() > 0 ==> forall |a: Name| #[trigger] r.dom().contains(a) ==> !r[a].contains(a),
    ensures cut(rules, r.dom()),
{
    assert forall |w: Seq<Name>| #[trigger] walk(rules, r.dom(), w) implies w[0] != w.last() by {
        if w[0] == w.last() {
            assert(r.dom().contains(w[0]));
            let v = lemma_short(rules, r.dom(), w);
            assert(r.dom().contains(v[0]));
        }
    }
}
/// the trivia that the operators of the rules need are defined
pub open spec fn trivia_defined(rules: Seq<ParseRule>) -> bool {
    forall |i: int| 0 <= i < rules.len() ==> (triv((#[trigger] rules[i]).node.expr, Trivia::Optional) ==> first(rules, opt_name()) is Some) && (triv(rules[i].node.expr, Trivia::Mandatory) ==> first(rules, man_name()) is Some)
}
pub proof fn lemma_swept_insert(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, a: Name, new: Set<Name>, m: int, j: int)
    requires swept(rules, r, m, j), 0 <= j <= rules.len(), r.dom().contains(a), r[a].subset_of(new), !new.contains(a),
    ensures swept(rules, r.insert(a, new), m, j),
{
    let s = r.insert(a, new);
    assert(s.dom() =~= r.dom());
    assert forall |i: int| 0 <= i < j implies reached_from(rules, s, m, (#[trigger] rules[i]).name@) && (s.dom().contains(rules[i].name@) ==> !s[rules[i].name@].contains(rules[i].name@)) by {
        assert(reached_from(rules, r, m, rules[i].name@));
        assert forall |w: Seq<Name>| #[trigger] walk(rules, s.dom(), w) && w[0] == rules[i].name@ && w.len() - 1 <= m implies s[w[0]].contains(w.last()) by { assert(walk(rules, r.dom(), w)); }
    }
}
pub proof fn lemma_swept_remove(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, a: Name, m: int, j: int)
    requires swept(rules, r, m, j), 0 <= j <= rules.len(),
    ensures swept(rules, r.remove(a), m, j), reached_from(rules, r.remove(a), m, a),
{
    let s = r.remove(a);
    assert forall |i: int| 0 <= i < j implies reached_from(rules, s, m, (#[trigger] rules[i]).name@) && (s.dom().contains(rules[i].name@) ==> !s[rules[i].name@].contains(rules[i].name@)) by {
        assert(reached_from(rules, r, m, rules[i].name@));
        assert forall |w: Seq<Name>| #[trigger] walk(rules, s.dom(), w) && w[0] == rules[i].name@ && w.len() - 1 <= m implies s[w[0]].contains(w.last()) by {
            assert forall |k: int| 0 <= k < w.len() - 1 implies r.dom().contains(#[trigger] w[k]) && edge(rules, w[k], w[k + 1]) by { assert(s.dom().contains(w[k])); }
            assert(walk(rules, r.dom(), w));
            assert(s.dom().contains(w[0]));
        }
    }
    assert forall |w: Seq<Name>| #[trigger] walk(rules, s.dom(), w) && w[0] == a && w.len() - 1 <= m implies s[w[0]].contains(w.last()) by { assert(s.dom().contains(w[0])); }
}
/// after a sweep
pub proof fn lemma_sweep(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>, m: int)
    requires swept(rules, r, m, rules.len() as int), named(rules, r.dom()),
    ensures reached(rules, r, m), forall |a: Name| #[trigger] r.dom().contains(a) ==> !r[a].contains(a),
{
    assert forall |a: Name| #[trigger] r.dom().contains(a) implies !r[a].contains(a) by { let i = index_of(rules, a); assert(rules[i].name@ == a); }
    assert forall |w: Seq<Name>| #[trigger] walk(rules, r.dom(), w) && w.len() - 1 <= m implies r[w[0]].contains(w.last()) by {
        assert(r.dom().contains(w[0]));
        let i = index_of(rules, w[0]); assert(rules[i].name@ == w[0]);
        assert(reached_from(rules, r, m, w[0]));
    }
}
/// the references themselves are walks of one step
pub proof fn lemma_init(rules: Seq<ParseRule>, r: Map<Name, Set<Name>>)
    requires forall |i: int, n: Name| 0 <= i < rules.len() && #[trigger] refers(rules, i, n) ==> r.dom().contains(rules[i].name@) && r[rules[i].name@].contains(n),
    ensures reached(rules, r, 1),
{
    assert forall |w: Seq<Name>| #[trigger] walk(rules, r.dom(), w) && w.len() - 1 <= 1 implies r[w[0]].contains(w.last()) by {
        let z = 0int; assert(edge(rules, w[z], w[z + 1]));
        let i = choose |i: int| 0 <= i < rules.len() && (#[trigger] rules[i]).name@ == w[0] && refers(rules, i, w[1int]);
        assert(refers(rules, i, w[1int]));
    }
}
pub open spec fn copy_of(o: Option<&ParseRule>) -> Option<ParseRule> { match o { Some(x) => Some(*x), None => None } }
//@free generator collect_reachability
    requires trivia_defined(rules@),
    ensures
        named(rules@, r@.dom()), cut(rules@, r@.dom()),
//@start
broadcast use str_eq;
let ghost mut before: Map<Name, Set<Name>> = Map::empty();
let ghost mut whole: Set<Name> = Set::empty();
//@loop 0
    invariant
        it0.seq().len() == rules@.len(), forall |i: int| 0 <= i < rules@.len() ==> *(#[trigger] it0.seq()[i]) == rules@[i],
        named(rules@, res@.dom()),
        forall |i: int, n: Name| 0 <= i < it0.index@ && #[trigger] refers(rules@, i, n) ==> res@.dom().contains(rules@[i].name@) && res@[rules@[i].name@].contains(n),
        it0.index@ == rules@.len() ==> reached(rules@, res@, 1),
//@loopstart 0
proof {
    before = res@;
    lemma_first(rules@, opt_name(), copy_of(optional_trivia)); lemma_first(rules@, man_name(), copy_of(mandatory_trivia));
    assert(*rule == rules@[it0.index@ as int]);
}
//@loopend 0
proof {
    assert(res@ == before.insert(rule.name@, res@[rule.name@]));
    assert forall |i: int, n: Name| 0 <= i < it0.index@ + 1 && #[trigger] refers(rules@, i, n) implies res@.dom().contains(rules@[i].name@) && res@[rules@[i].name@].contains(n) by { }
    if it0.index@ + 1 == rules@.len() { lemma_init(rules@, res@); }
}
//@loop 1
    invariant
        it1.seq().len() == rules@.len(),
        named(rules@, res@.dom()), reached(rules@, res@, it1.index@ + 1),
        it1.index@ > 0 ==> forall |a: Name| #[trigger] res@.dom().contains(a) ==> !res@[a].contains(a),
        it1.index@ == rules@.len() ==> cut(rules@, res@.dom()),
//@loopend 1
proof {
    lemma_sweep(rules@, res@, it1.index@ + 2);
    if it1.index@ + 1 == rules@.len() {
        assert forall |w: Seq<Name>| #[trigger] walk(rules@, res@.dom(), w) && w.len() - 1 <= rules@.len() implies res@[w[0]].contains(w.last()) by { }
        lemma_cut(rules@, res@);
    }
}
//@loop 2
    invariant
        it2.seq().len() == rules@.len(), forall |i: int| 0 <= i < rules@.len() ==> *(#[trigger] it2.seq()[i]) == rules@[i],
        named(rules@, res@.dom()), reached(rules@, res@, it1.index@ + 1), swept(rules@, res@, it1.index@ + 2, it2.index@ as int),
//@loopstart 2
proof { before = res@; assert(*rule == rules@[it2.index@ as int]); }
//@loopend 2
proof {
    let a = rule.name@;
    let m = it1.index@ + 1;
    if res@.dom().contains(a) {
        let new = res@[a];
        assert(res@ =~= before.insert(a, new));
        lemma_step(rules@, before, a, new, m);
        lemma_swept_insert(rules@, before, a, new, m + 1, it2.index@ as int);
    } else {
        assert(res@ =~= before.remove(a));
        lemma_drop(rules@, before, a, m);
        lemma_swept_remove(rules@, before, a, m + 1, it2.index@ as int);
    }
}
//@loop 3
    invariant
        res@ == before.remove(rule_ref@),
        before[rule_ref@].subset_of(new@),
        forall |i: int| 0 <= i < it3.index@ && res@.dom().contains((#[trigger] it3.seq()[i])@) ==> res@[it3.seq()[i]@].subset_of(new@),
//@noiso
//@end
// whether a rule is boxed
//@item generator Config
#[verifier::external_body]
pub struct Ident { s: std::string::String }
/// TRUSTED: making an identifier
pub mod quote { pub mod __private {
    use super::super::*;
    pub enum Option<T> { None, Some(T) }
    impl<T> Option<T> {
        #[verifier::external_body]
        pub fn or(self, o: std::option::Option<T>) -> (r: std::option::Option<T>) { unimplemented!() }
    }
    pub struct IdentFragmentAdapter<'a>(pub &'a &'a str);
    impl<'a> IdentFragmentAdapter<'a> {
        #[verifier::external_body]
        pub fn span(&self) -> (r: std::option::Option<()>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn mk_ident(s: &String, span: std::option::Option<()>) -> (r: Ident) { unimplemented!() }
} }
//@item generator RuleInfo
//@open generator impl RuleInfo
//@fn new
    ensures
        !r.boxed ==> reachability@.dom().contains(rule.name@),
//@close
