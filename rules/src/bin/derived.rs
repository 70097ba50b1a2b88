//! derived PROP TIER SEED OUT: parsers derived from fixed grammars, against an independent reading of the grammar text.
#![allow(non_camel_case_types, dead_code, clippy::all)]
#[path = "../../../replay/src/report.rs"]
mod report;
mod cases { pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
} }
#[path = "../grammar.rs"]
mod grammar;
use cases::caught;
use grammar::*;
use pest3::{token::Pair, typed::{PairContainer, RuleType, Tracker, TypedNode}, Position, Span, Stack};
use report::{cur, Rep};
type I = &'static str;

macro_rules! grammars { ($($m:ident { $($rule:ident),* $(,)? } = $text:tt;)*) => {
    $(pub mod $m { #[derive(pest3::Parser)] #[grammar_inline = $text] pub struct P; pub const TEXT: &str = $text; })*
    pub fn inline_cases(v: &mut Vec<Case>) { $($( v.push(case!($m, $rule)); )*)* }
} }
macro_rules! case { ($m:ident, $rule:ident) => { Case {
    grammar: stringify!($m), text: $m::TEXT, rule: stringify!($rule),
    run: |i, p, s, k| run::<$m::Rule, $m::rules::$rule<'static>>(i, p, s, k, |n| (n.span.get_input(), n.span.start(), n.span.end())),
    entries: |i| entries::<$m::Rule, $m::rules::$rule<'static>, $m::P>(i),
} } }
include!("../gtexts.rs");
pub mod imp { #[derive(pest3::Parser)] #[grammar = "grammars/main.pest"] pub struct P; pub const TEXT: &str = include_str!("../../grammars/main.pest"); }
pub mod dag { #[derive(pest3::Parser)] #[grammar = "grammars/nested/top.pest"] pub struct P; pub const TEXT: &str = include_str!("../../grammars/nested/top.pest"); }

#[derive(Clone, Debug, PartialEq)]
pub struct Out { end: Option<usize>, stack: Vec<(usize, usize)>, same: bool, span: Option<(usize, usize)>, selfs: Vec<PT>, kids: Vec<PT>, trk: Attempts }
#[derive(Clone, Debug, PartialEq)]
pub struct Ent { parse: Result<(), String>, partial: Result<usize, String>, check: Result<(), String>, cpartial: Result<usize, String> , typed: (bool, Option<usize>) }
pub struct Case { grammar: &'static str, text: &'static str, rule: &'static str, run: fn(I, usize, &[(usize, usize)], bool) -> Out, entries: fn(I) -> Ent }

fn pt<R: RuleType>(p: &Pair<R>) -> PT { PT { rule: format!("{:?}", p.rule), start: p.start, end: p.end, children: p.children.iter().map(pt).collect() } }
fn run<R: RuleType, T: TypedNode<'static, R> + PairContainer<R>>(input: I, pos: usize, st: &[(usize, usize)], parse: bool, span: fn(&T) -> (I, usize, usize)) -> Out {
    let mut s = Stack::new();
    for x in st { s.push(Span::new(input, x.0, x.1).unwrap()) }
    s.snapshot();
    let p = Position::new(input, pos).unwrap();
    let mut t = Tracker::<R>::new(p);
    let mut o = Out { end: None, stack: vec![], same: true, span: None, selfs: vec![], kids: vec![], trk: Default::default() };
    if parse {
        if let Some((q, n)) = T::try_parse_with_partial(p, &mut s, &mut t) {
            o.end = Some(q.pos());
            let (i, a, b) = span(&n);
            o.same = std::ptr::eq(i, input);
            o.span = Some((a, b));
            n.for_self_or_for_each_child_pair(&mut |p| o.selfs.push(pt(&p)));
            o.kids = n.vec_children_pairs().iter().map(pt).collect();
        }
    } else { o.end = T::check_with_partial(p, &mut s, &mut t).map(|q| q.pos()) }
    o.stack = s[0..s.len()].iter().map(|x| (x.start(), x.end())).collect();
    let (q, a) = t.finish();
    o.trk.pos = q.pos();
    for (k, v) in a {
        o.trk.map.insert(k.map(|r| format!("{r:?}")), (v.0.iter().map(|r| format!("{r:?}")).collect(), v.1.iter().map(|r| format!("{r:?}")).collect(), v.2.len()));
    }
    s.restore();
    if s[0..s.len()].iter().map(|x| (x.start(), x.end())).ne(st.iter().copied()) { o.same = false }
    o
}
fn entries<R: RuleType, T: TypedNode<'static, R>, P: pest3::typed::TypedParser<R>>(i: I) -> Ent {
    Ent {
        parse: T::try_parse(i).map(|_| ()).map_err(|e| e.to_string()), partial: T::try_parse_partial(i).map(|(p, _)| p.pos()).map_err(|e| e.to_string()),
        check: T::check(i).map_err(|e| e.to_string()), cpartial: T::check_partial(i).map(|p| p.pos()).map_err(|e| e.to_string()),
        typed: (P::try_parse::<T>(i).is_ok(), P::try_parse_partial::<T>(i).ok().map(|x| x.0.pos())),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, thorough, out) = (a[1].clone(), a[2] == "thorough", a[4].clone());
    std::panic::set_hook(Box::new(|_| {}));
    report::watchdog(prop.clone(), out.clone(), 20);
    let mut rep = Rep { prop: prop.clone(), evals: 0, hits: 0, fails: vec![], nfail: 0, known: vec![], samples: vec![] };
    let mut cases = vec![];
    inline_cases(&mut cases);
    cases.extend([case!(imp, main), case!(imp, leaf), case!(imp, deep), case!(imp, mix), case!(dag, top), case!(dag, both)]);
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, || caught(|| {
        for c in &cases { drive(&prop, c, thorough, &mut rep) }
    })).unwrap().join());
    if let Ok(Err(e)) = &r { println!("harness panicked: {e}") }
    rep.write(&out);
    println!("{prop}: {} evaluations, {} non-trivial, {} failures", rep.evals, rep.hits, rep.nfail);
    for f in rep.fails.iter().take(5) { println!("FAIL {f}") }
}
fn strings(alpha: &[char], max: usize) -> Vec<I> {
    let (mut out, mut last) = (vec![String::new()], vec![String::new()]);
    for _ in 0..max {
        let mut next = vec![];
        for s in &last { for c in alpha { next.push(format!("{s}{c}")) } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}
fn drive(prop: &str, c: &Case, thorough: bool, rep: &mut Rep) {
    let world = World::new(c.text, if c.grammar == "imp" { "grammars/main.pest" } else { "grammars/nested/top.pest" });
    let alpha = world.alphabet(c.rule);
    let budget = match (prop, thorough) { ("C11", false) => 6000, ("C11", true) => 60000, (_, false) => 20000, (_, true) => 200000 };
    let (mut max, mut n) = (1, alpha.len());
    while max < 9 && n * alpha.len() <= budget { max += 1; n *= alpha.len() }
    let mut inputs = strings(&alpha, max);
    for w in world.words(c.rule) { for x in ["", "a"] { inputs.push(Box::leak(format!("{w}{x}").into_boxed_str())) } }
    for input in inputs {
        if rep.stop() { return }
        let stacks: &[&[(usize, usize)]] = if world.uses_stack() && input.len() >= 2 && input.is_char_boundary(1) && input.is_char_boundary(2) { &[&[], &[(0, 1), (1, 2)]] } else { &[&[]] };
        for st in stacks { one(prop, c, &world, input, st, rep) }
    }
}
fn one(prop: &str, c: &Case, w: &World, input: I, st: &[(usize, usize)], rep: &mut Rep) {
    let name = || format!("derived rule `{}` of grammar {} (rules/src/gtexts.rs) on {input:?} with stack {st:?}", c.rule, c.grammar);
    cur(name);
    let mut m = M::new(w, input, st);
    let Ok(want) = m.rule(c.rule, 0) else { return };
    let p = caught(|| (c.run)(input, 0, st, true));
    let k = caught(|| (c.run)(input, 0, st, false));
    rep.eval(want.is_some());
    let (p, k) = match (p, k) {
        (Ok(p), Ok(k)) => (p, k),
        (a, b) => { rep.fail(format!("{}: parse {}, check {}", name(), if a.is_err() { "panics" } else { "returns" }, if b.is_err() { "panics" } else { "returns" })); return }
    };
    let end = want.as_ref().map(|x| x.0);
    match prop {
        "C10" => {
            if (p.end, &p.stack, p.end.is_none().then_some(&p.trk)) != (k.end, &k.stack, p.end.is_none().then_some(&k.trk)) { rep.fail(format!("{}: parse gives {p:?}, check gives {k:?}", name())) }
            if st.is_empty() && input.len() < 5 { if let Ok(e) = caught(|| (c.entries)(input)) { if e.parse != e.check || e.partial != e.cpartial { rep.fail(format!("{}: {e:?}", name())) } } }
        }
        "C11" => if st.is_empty() { if let Ok(e) = caught(|| (c.entries)(input)) {
            let full = end == Some(input.len());
            if e.parse.is_ok() != full || e.check.is_ok() != full || e.typed.0 != full || e.partial.clone().ok() != end || e.cpartial.clone().ok() != end || e.typed.1 != end { rep.fail(format!("{}: the match from the start ends at {end:?}, but {e:?}", name())) }
        } },
        "C12" => if p.end.is_some() && p.end == end && (p.span != Some((0, end.unwrap())) || !p.same) { rep.fail(format!("{}: matched 0..{end:?}, the node's span is {:?}", name(), p.span)) },
        "C13" => if p.end.is_some() && p.end == end {
            let want = want.unwrap().1;
            if p.selfs != want { rep.fail(format!("{}: lists {:?}, matched {:?}", name(), p.selfs, want)) }
            let kids = if w.silent(c.rule) { vec![] } else { want.iter().flat_map(|x| x.children.clone()).collect() };
            if p.kids != kids { rep.fail(format!("{}: lists children {:?}, matched {:?}", name(), p.kids, kids)) }
        },
        "C14" => for (n, o) in [("parse", &p), ("check", &k)] { if o.end == end && o.trk != m.trk.out() { rep.fail(format!("{}: {n} leaves attempts {:?}, expected {:?}", name(), o.trk, m.trk.out())) } },
        "C08" => for (n, o) in [("parse", &p), ("check", &k)] { if o.end == end && (o.stack != m.stack || !o.same) { rep.fail(format!("{}: {n} leaves stack {:?}, expected {:?}", name(), o.stack, m.stack)) } },
        _ => for (n, o) in [("parse", &p), ("check", &k)] {
            if o.end != end || end.is_some() && o.stack != m.stack { rep.fail(format!("{}: {n} ends at {:?} with stack {:?}, expected {end:?} with {:?}", name(), o.end, o.stack, m.stack)) }
            if prop == "C20" && n == "parse" && o.end == end && o.selfs != want.as_ref().map_or(vec![], |x| x.1.clone()) { rep.fail(format!("{}: lists pairs {:?}, expected {:?}", name(), o.selfs, want.as_ref().map(|x| &x.1))) }
        },
    }
}
