// pest3_generator: the node type written for an expression
//@path String String
//@rename clone 0 vx_clone
//@rename enumerate 0 vx_enumerate
//@rename contains 1 vx_contains
//@rename unwrap 0 vx_unwrap
//@rename mk_ident 1 vx_ident
//@modules parser generator
//@known resolve content content_i contents optional choice join GetterByName::default GetterByName::from_generics_arg GetterByName::from_rule process_expr ProcessedPathArgs::process ModuleError::check_argc
//@path BTreeSet BTreeSet
//@path BTreeMap BTreeMap
//@ident ParseNode ParseNode
#[verifier::external_body] pub struct Output<'g> { s: &'g str }
#[verifier::external_body] pub struct Config { s: u8 }
// ---------------------------------------------------------------- literals
//@item generator Tracker
/// what the tracker has noted: the wrapper type of each literal, the arities of sequences and choices
pub struct Noted { pub lits: Map<Name, usize>, pub seqs: Set<usize>, pub chs: Set<usize> }
pub open spec fn noted(t: &Tracker) -> Noted { Noted { lits: t.wrapper_counter@, seqs: t.sequences@, chs: t.choices@ } }
/// everything noted in `a` is noted in `b`
pub open spec fn within(a: Noted, b: Noted) -> bool {
    (forall |k: Name| #[trigger] a.lits.dom().contains(k) ==> b.lits.dom().contains(k) && b.lits[k] == a.lits[k])
        && a.seqs.subset_of(b.seqs) && a.chs.subset_of(b.chs)
}
pub broadcast proof fn within_trans(a: Noted, b: Noted, c: Noted)
    requires #[trigger] within(a, b), #[trigger] within(b, c),
    ensures within(a, c),
{
    assert forall |k: Name| #[trigger] a.lits.dom().contains(k) implies c.lits.dom().contains(k) && c.lits[k] == a.lits[k] by { assert(b.lits.dom().contains(k)); }
}
#[verifier::inline]
pub open spec fn wrapper_name(n: usize) -> Name { name1("W", digits(n)) }
/// the type named `W{n}` whose content is the literal
pub open spec fn declares(t: Ts, n: usize, lit: Name) -> bool {
    exists |attrs: Ts| t == #[trigger] wrapper_def(attrs, n, lit)
}
#[verifier::inline]
pub open spec fn wrapper_def(attrs: Ts, n: usize, lit: Name) -> Ts {
    attrs.id("pub").id("struct").name(wrapper_name(n)).semi()
        .id("impl").add(pest_ts()).colon2().id("typed").colon2().id("wrapper").colon2().id("String").id("for").name(wrapper_name(n))
        .group(1, ts0().id("const").id("CONTENT").colon().and().life("'static").colon2().id("core").colon2().id("primitive").colon2().id("str").eq_().text(lit).semi())
}
pub broadcast proof fn def_declares(attrs: Ts, n: usize, lit: Name)
    ensures declares(#[trigger] wrapper_def(attrs, n, lit), n, lit),
{ }
/// every literal noted has its wrapper type
pub open spec fn wf(t: &Tracker) -> bool {
    t.wrapper_counter@.dom().len() == t.wrappers@.len()
        && forall |k: Name| #[trigger] t.wrapper_counter@.dom().contains(k) ==> t.wrapper_counter@[k] < t.wrappers@.len() && declares(t.wrappers@[t.wrapper_counter@[k] as int]@, t.wrapper_counter@[k], k)
}
pub open spec fn wrapper_ts(l: Map<Name, usize>, s: Name) -> Ts { ts0().id("wrapper").colon2().name(wrapper_name(l[s])) }
//@open generator impl Tracker
//@fn record_seq
    ensures noted(final(self)) == (Noted { seqs: noted(old(self)).seqs.insert(index), ..noted(old(self)) }), wf(old(self)) ==> wf(final(self)), within(noted(old(self)), noted(final(self))),
//@fn record_choice
    ensures noted(final(self)) == (Noted { chs: noted(old(self)).chs.insert(index), ..noted(old(self)) }), wf(old(self)) ==> wf(final(self)), within(noted(old(self)), noted(final(self))),
//@fn insert_string_wrapper
    requires wf(old(self)),
    ensures
        wf(final(self)), within(noted(old(self)), noted(final(self))),
        noted(final(self)).lits.dom().contains(string@), r@ == wrapper_ts(noted(final(self)).lits, string@),
//@start
broadcast use {ts::norm, def_declares};
let ghost vx_l = self.wrapper_counter@.dom();
//@close
// ---------------------------------------------------------------- expressions
pub struct Ctx<'a, 'g> { pub params: Seq<Name>, pub root: Ts, pub mods: &'a ModuleSystem<'g>, pub noted: Noted }
pub open spec fn ctx<'a, 'g>(c: &RuleConfig<'g>, m: &'a ModuleSystem<'g>, root: Ts, n: Noted) -> Ctx<'a, 'g> { Ctx { params: names(c.grammar.args@), root, mods: m, noted: n } }
/// `root::generics::name`
pub open spec fn node_ts(x: Ctx, name: Name) -> Ts { x.root.colon2().add(generics_ts()).colon2().name(name) }
pub open spec fn trivia_ts(t: Trivia) -> Ts {
    match t {
        Trivia::Mandatory => ts0().id("__MandatoryTrivia").colon2().lt().life("'i").gt(),
        Trivia::Optional => ts0().id("__OptionalTrivia").colon2().lt().life("'i").gt(),
        Trivia::None => pest_ts().colon2().id("typed").colon2().id("template").colon2().id("Empty"),
    }
}
/// the trivia between repetitions
pub open spec fn between(e: ParseExpr) -> Trivia { match e { ParseExpr::Separated(_, t) => t, _ => Trivia::None } }
/// an operand of a sequence with the trivia before it
pub open spec fn pair_ts(t: Ts, u: Trivia) -> Ts { cat(cat(t, tok(Tok::Comma)), trivia_ts(u)) }
pub open spec fn pairs_ts(v: Seq<Ts>, l: Seq<(Trivia, &ParseExpr)>) -> Seq<Ts> { Seq::new(v.len(), |i: int| pair_ts(v[i], l[i].0)) }
/// a list of operands of the sequence, in order
pub open spec fn lists_seq(e: ParseExpr, l: Seq<(Trivia, &ParseExpr)>) -> bool { all_operands(l) == operands(e, Trivia::None) }
pub open spec fn lists_choice(e: ParseExpr, l: Seq<&ParseExpr>) -> bool { all_alternatives(l) == alternatives(e) }
/// (names a type)
pub open spec fn a_type(u: Ts) -> bool { true }
pub open spec fn some_types(u: Seq<Ts>) -> bool { true }
/// `t` is a type for the expression `e`: the node type whose matching (properties C01, C05 to C09) is what `e` means
pub open spec fn denotes(e: ParseExpr, x: Ctx, t: Ts) -> bool
    decreases e,
{
    match e {
        ParseExpr::Str(s) => x.noted.lits.dom().contains(s@)
            && t == node_ts(x, "Str"@).colon2().lt().add(x.root).colon2().add(wrapper_ts(x.noted.lits, s@)).gt(),
        ParseExpr::Insens(s) => x.noted.lits.dom().contains(s@)
            && t == node_ts(x, "Insens"@).colon2().lt().life("'i").comma().add(x.root).colon2().add(wrapper_ts(x.noted.lits, s@)).gt(),
        ParseExpr::Range(a, b) => t == node_ts(x, "CharRange"@).colon2().lt().chr(a).comma().chr(b).gt(),
        ParseExpr::Path(p, a) => if p@.len() == 1 && x.params.contains(p@[0]@) { t == tok(Tok::Id(name1("r#", p@[0]@))) }
            else { match a {
                None => Some(t) == path_type(x.mods, names(p@), Args::No, x.root),
                Some(PathArgs::Slice(s)) => Some(t) == path_type(x.mods, names(p@), Args::Slice(s), x.root),
                Some(PathArgs::Call(a)) => exists |u: Seq<Ts>| #[trigger] some_types(u) && u.len() == a@.len() && (forall |i: int| 0 <= i < a@.len() ==> denotes((#[trigger] a@[i]).expr, x, u[i]))
                    && Some(t) == path_type(x.mods, names(p@), Args::Call(u), x.root),
            } },
        ParseExpr::PosPred(n) => exists |u: Ts| #[trigger] a_type(u) && denotes(n.expr, x, u) && t == node_ts(x, "Positive"@).colon2().lt().add(u).gt(),
        ParseExpr::NegPred(n) => exists |u: Ts| #[trigger] a_type(u) && denotes(n.expr, x, u) && t == node_ts(x, "Negative"@).colon2().lt().add(u).gt(),
        ParseExpr::Opt(n) => exists |u: Ts| #[trigger] a_type(u) && denotes(n.expr, x, u) && t == pest_ts().colon2().id("std").colon2().id("Option").colon2().lt().add(u).gt(),
        ParseExpr::Rep(n) => exists |u: Ts| #[trigger] a_type(u) && denotes(n.expr, x, u) && t == node_ts(x, "Rep"@).colon2().lt().add(u).comma().add(trivia_ts(between(n.expr))).gt(),
        ParseExpr::RepOnce(n) => exists |u: Ts| #[trigger] a_type(u) && denotes(n.expr, x, u) && t == node_ts(x, "RepOnce"@).colon2().lt().add(u).comma().add(trivia_ts(between(n.expr))).gt(),
        ParseExpr::RepRange(n, r) => exists |u: Ts| #[trigger] a_type(u) && denotes(n.expr, x, u) && t == match (r.start, r.end) {
            (None, None) => node_ts(x, "Rep"@).colon2().lt().add(u).comma().add(trivia_ts(between(n.expr))).gt(),
            (Some(a), None) => node_ts(x, "RepMin"@).colon2().lt().add(u).comma().add(trivia_ts(between(n.expr))).comma().num(a).gt(),
            (None, Some(b)) => node_ts(x, "RepMax"@).colon2().lt().add(u).comma().add(trivia_ts(between(n.expr))).comma().num(b).gt(),
            (Some(a), Some(b)) => node_ts(x, "RepMinMax"@).colon2().lt().add(u).comma().add(trivia_ts(between(n.expr))).comma().num(a).comma().num(b).gt(),
        },
        ParseExpr::Separated(n, _) => denotes(n.expr, x, t),
        ParseExpr::Seq(..) => exists |l: Seq<(Trivia, &ParseExpr)>, u: Seq<Ts>| #[trigger] lists_seq(e, l) && #[trigger] some_types(u) && u.len() == l.len() && x.noted.seqs.contains(l.len() as usize)
            && (forall |i: int| 0 <= i < l.len() ==> decreases_to!(e => *(#[trigger] l[i]).1) && denotes(*l[i].1, x, u[i]))
            && t == cat(cat(seq_head(x.root, l.len() as usize), listed(pairs_ts(u, l))), tok(Tok::Gt)),
        ParseExpr::Choice(..) => exists |l: Seq<&ParseExpr>, u: Seq<Ts>| #[trigger] lists_choice(e, l) && #[trigger] some_types(u) && u.len() == l.len() && x.noted.chs.contains(l.len() as usize)
            && (forall |i: int| 0 <= i < l.len() ==> decreases_to!(e => *#[trigger] l[i]) && denotes(*l[i], x, u[i]))
            && t == cat(cat(choice_head(x.root, l.len() as usize), listed(u)), tok(Tok::Gt)),
    }
}
pub open spec fn seq_head(root: Ts, n: usize) -> Ts { root.colon2().add(generics_ts()).colon2().name(name1("Sequence", digits(n))).colon2().lt() }
pub open spec fn choice_head(root: Ts, n: usize) -> Ts { root.colon2().add(generics_ts()).colon2().name(name1("Choice", digits(n))).colon2().lt() }
/// operands with their numbers, without the numbers
pub open spec fn plain<T>(s: Seq<(usize, T)>) -> Seq<T> { s.map_values(|p: (usize, T)| p.1) }
pub broadcast proof fn plain_numbered<T>(s: Seq<T>)
    ensures #[trigger] plain(numbered_items(s)) == s,
{ assert(plain(numbered_items(s)) =~= s); }
pub proof fn nodes_below(a: PathArgs)
    ensures forall |i: int| 0 <= i < call_nodes(a).len() ==> decreases_to!(a => (#[trigger] call_nodes(a)[i]).expr),
{ match a { PathArgs::Call(v) => { assert forall |i: int| 0 <= i < call_nodes(a).len() implies decreases_to!(a => (#[trigger] call_nodes(a)[i]).expr) by { assert(decreases_to!(v => v[i])); } } _ => {} } }
pub open spec fn tss1(v: Vec<(TokenStream, Trivia)>) -> Seq<Ts> { v@.map_values(|t: (TokenStream, Trivia)| t.0@) }
pub open spec fn tts1(v: Vec<(TokenStream, Trivia)>) -> Seq<Trivia> { v@.map_values(|t: (TokenStream, Trivia)| t.1) }
pub open spec fn inters(v: Vec<Intermediate>) -> Seq<Ts> { types_of(v@) }
pub open spec fn trivs(v: Seq<(Trivia, &ParseExpr)>) -> Seq<Trivia> { v.map_values(|t: (Trivia, &ParseExpr)| t.0) }
//@free generator get_trivia
    ensures r == between(*expr),
//@end
//@free generator embed_trivia
    ensures r@ == trivia_ts(*trivia),
//@start
broadcast use ts::norm;
//@end
pub open spec fn call_nodes(a: PathArgs) -> Seq<ParseNode> { match a { PathArgs::Call(v) => v@, _ => seq![] } }
//@open generator impl ProcessedPathArgs
//@fn process
    requires wf(old(tracker)),
    ensures
        wf(final(tracker)), within(noted(old(tracker)), noted(final(tracker))),
        match *args {
            PathArgs::Slice(s) => args_of(Some(r)) == Args::Slice(s),
            PathArgs::Call(a) => match args_of(Some(r)) {
                Args::Call(u) => some_types(u) && u.len() == a@.len() && forall |n: Noted| #[trigger] within(noted(final(tracker)), n) ==> forall |i: int| 0 <= i < a@.len() ==> denotes((#[trigger] a@[i]).expr, ctx(rule_config, mod_sys, root@, n), u[i]),
                _ => false,
            },
        },
    decreases *args,
//@start
broadcast use within_trans;
let ghost n0 = noted(old(tracker));
let ghost vx_args = *args;
let ghost a0 = call_nodes(*args);
proof { nodes_below(*args); }
//@loop 0
    invariant
        it0.seq().len() == a0.len(), forall |i: int| 0 <= i < a0.len() ==> *(#[trigger] it0.seq()[i]) == a0[i], a0 == call_nodes(vx_args),
        wf(tracker), within(n0, noted(tracker)),
        inters(vx_out0).len() == it0.index@,
        forall |i: int, n: Noted| 0 <= i < it0.index@ && #[trigger] within(noted(tracker), n) ==> denotes((#[trigger] a0[i]).expr, ctx(rule_config, mod_sys, root@, n), inters(vx_out0)[i]),
//@noiso
//@close
//@free generator process_expr
    requires wf(old(tracker)),
    ensures
        wf(final(tracker)), within(noted(old(tracker)), noted(final(tracker))),
        a_type(r.typename@),
        forall |n: Noted| #[trigger] within(noted(final(tracker)), n) ==> denotes(*expr, ctx(rule_config, mod_sys, root@, n), r.typename@),
    decreases *expr,
//@start
broadcast use {ts::norm, within_trans, plain_numbered, take_full, push_map};
reveal_with_fuel(operands, 2); reveal_with_fuel(alternatives, 2);
let ghost n0 = noted(old(tracker));
let ghost vx_e = *expr;
let ghost mut vx_l: Seq<(Trivia, &ParseExpr)> = seq![];
let ghost mut vx_c: Seq<&ParseExpr> = seq![];
//@loop 0
    invariant
        lists_seq(vx_e, plain(it0.seq())), vx_l == plain(it0.seq()).take(it0.index@ as int),
        forall |i: int| 0 <= i < it0.seq().len() ==> decreases_to!(vx_e => *(#[trigger] it0.seq()[i]).1.1),
        wf(tracker), within(n0, noted(tracker)),
        vx_l.len() == it0.index@, tss1(types).len() == it0.index@, tts1(types) =~= trivs(vx_l),
        forall |i: int, n: Noted| 0 <= i < it0.index@ && #[trigger] within(noted(tracker), n) ==> denotes(*(#[trigger] vx_l[i]).1, ctx(rule_config, mod_sys, root@, n), tss1(types)[i]),
//@loopstart 0
broadcast use {within_trans, plain_numbered, take_full, push_map};
//@loopend 0
proof { take_next(plain(it0.seq()), it0.index@ as int, vx_l); }
proof { vx_l = vx_l.push((trivia, expr)); }
//@loop 1
    invariant
        it1.seq().len() == types@.len(), forall |i: int| #![trigger it1.seq()[i]] #![trigger types@[i]] 0 <= i < types@.len() ==> *(it1.seq()[i]) == types@[i],
        vx_l.len() == types@.len(), tts1(types) =~= trivs(vx_l), some_types(tss1(types)),
        tss(vx_out0) =~= pairs_ts(tss1(types), vx_l).take(it1.index@ as int),
//@loopstart 1
broadcast use {ts::norm, push_map};
let ghost _p = trivs(vx_l)[it1.index@ as int];
proof { take_next(pairs_ts(tss1(types), vx_l), it1.index@ as int, tss(vx_out0)); }
//@loop 2
    invariant
        it2.seq().len() == pairs_ts(tss1(types), vx_l).len(), forall |i: int| 0 <= i < pairs_ts(tss1(types), vx_l).len() ==> (#[trigger] it2.seq()[i])@ == pairs_ts(tss1(types), vx_l)[i],
        _s@ == cat(seq_head(root@, types@.len() as usize), listed(pairs_ts(tss1(types), vx_l).take(it2.index@ as int))),
//@loopstart 2
broadcast use ts::norm;
proof { listed_next(pairs_ts(tss1(types), vx_l), it2.index@ as int); }
//@loop 3
    invariant
        lists_choice(vx_e, plain(it3.seq())), vx_c == plain(it3.seq()).take(it3.index@ as int),
        forall |i: int| 0 <= i < it3.seq().len() ==> decreases_to!(vx_e => *(#[trigger] it3.seq()[i]).1),
        wf(tracker), within(n0, noted(tracker)),
        vx_c.len() == it3.index@, tss(types).len() == it3.index@,
        forall |i: int, n: Noted| 0 <= i < it3.index@ && #[trigger] within(noted(tracker), n) ==> denotes(*(#[trigger] vx_c[i]), ctx(rule_config, mod_sys, root@, n), tss(types)[i]),
//@loopstart 3
broadcast use {within_trans, plain_numbered, take_full, push_map};
//@loopend 3
proof { take_next(plain(it3.seq()), it3.index@ as int, vx_c); }
proof { vx_c = vx_c.push(expr); }
//@loop 4
    invariant
        it4.seq().len() == types@.len(), forall |i: int| 0 <= i < types@.len() ==> *(#[trigger] it4.seq()[i]) == types@[i],
        some_types(tss(types)),
        _s@ == cat(choice_head(root@, types@.len() as usize), listed(tss(types).take(it4.index@ as int))),
//@loopstart 4
broadcast use ts::norm;
proof { listed_next(tss(types), it4.index@ as int); }
//@noiso
//@end
