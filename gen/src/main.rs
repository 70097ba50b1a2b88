//! gen PROP TIER SEED OUT: the grammar reader and the generator on random grammars, against independent readings.
#![allow(dead_code, clippy::all)]
#[path = "../../replay/src/report.rs"]
mod report;
mod cases { pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
} }
#[path = "../../rules/src/grammar.rs"]
#[allow(unused)]
mod grammar;
mod paths;
mod rand;
mod types;
use cases::caught;
use grammar::{Args, X};
use pest3_meta::parser::{self, GrammarModule, ParseExpr, ParseNode, PathArgs, Trivia};
use rand::{canon, Kinds, Rng, Scope};
use report::{cur, Rep};
use std::collections::{BTreeMap, BTreeSet};
use types::{GMod, Gen};

pub fn meta(text: &str) -> Result<std::sync::Arc<GrammarModule>, String> {
    match caught(|| parser::parse(text, &"/nowhere/main.pest")) { Ok(Ok(m)) => Ok(m), Ok(Err(e)) => Err(e.to_string()), Err(p) => Err(format!("panic: {p}")) }
}
fn triv(t: &Trivia) -> char { match t { Trivia::None => '-', Trivia::Optional => '~', Trivia::Mandatory => '^' } }
/// the parsed expression, as an expression of the harness
pub fn ast(e: &ParseExpr) -> X {
    let b = |n: &ParseNode| Box::new(ast(&n.expr));
    let t = |n: &ParseNode| match &n.expr { ParseExpr::Separated(_, t) => triv(t), _ => '-' };
    match e {
        ParseExpr::Str(s) => X::Str(s.clone()),
        ParseExpr::Insens(s) => X::Ins(s.clone()),
        ParseExpr::Range(a, b) => X::Range(*a, *b),
        ParseExpr::Path(p, None) => X::Path(p.clone(), Args::None),
        ParseExpr::Path(p, Some(PathArgs::Call(v))) => X::Path(p.clone(), Args::Call(v.iter().map(|n| ast(&n.expr)).collect())),
        ParseExpr::Path(p, Some(PathArgs::Slice(r))) => X::Path(p.clone(), Args::Slice(r.start, r.end)),
        ParseExpr::PosPred(n) => X::Pos(b(n)),
        ParseExpr::NegPred(n) => X::Neg(b(n)),
        ParseExpr::Seq(l, r, t) => X::Seq(vec![('-', ast(&l.expr)), (triv(t), ast(&r.expr))]),
        ParseExpr::Choice(l, r) => X::Choice(vec![ast(&l.expr), ast(&r.expr)]),
        ParseExpr::Opt(n) => X::Opt(b(n)),
        ParseExpr::Rep(n) => X::Rep(0, usize::MAX, b(n), t(n)),
        ParseExpr::RepOnce(n) => X::Rep(1, usize::MAX, b(n), t(n)),
        ParseExpr::RepRange(n, r) => X::Rep(r.start.unwrap_or(0), r.end.unwrap_or(usize::MAX), b(n), t(n)),
        ParseExpr::Separated(n, t) => X::Sep(b(n), triv(t)),
    }
}
pub fn same(a: &X, b: &X) -> bool { format!("{a:?}") == format!("{b:?}") }
pub fn show(s: &str) -> String { format!("{s:?}") }

#[derive(Clone, Debug)]
pub struct Rule { pub name: String, pub args: Vec<String>, pub silent: bool, pub body: X }
pub struct Grammar { pub rules: Vec<Rule>, pub text: String, pub aliases: Vec<(String, X)> }
const ALIAS: &[(&str, &str)] = &[("al_digit", "pest::ascii_digit"), ("al_any", "pest::any"), ("al_pop", "pest::stack::pop"), ("al_han", "pest::unicode::han"), ("al_end", "pest::eoi")];

const NAMES: &[&str] = &["a", "b", "leaf", "of", "pair", "x1", "fn", "type", "loop", "snake_case", "Upper", "_u"];
fn grammar(r: &mut Rng, kinds: Kinds, params: bool, depth: usize) -> Grammar {
    let n = 1 + r.below(5);
    let mut names: Vec<&str> = NAMES.to_vec();
    let mut heads: Vec<(String, usize)> = vec![];
    for _ in 0..n { let i = r.below(names.len()); let k = if params && r.one_in(2) { 1 + r.below(3) } else { 0 }; heads.push((names.swap_remove(i).to_string(), k)) }
    let mut aliases: Vec<(String, X)> = vec![];
    if kinds == Kinds::All { for (a, p) in ALIAS { if r.one_in(8) { aliases.push((a.to_string(), X::Path(p.split("::").map(|s| s.to_string()).collect(), Args::None))) } } }
    let mut rules = vec![];
    let silent: Vec<bool> = heads.iter().map(|_| r.one_in(3)).collect();
    for (i, (name, k)) in heads.iter().enumerate() {
        // parameter names may be those of rules: a parameter hides the rule
        let mut pool: Vec<String> = ["e", "f", "sep"].iter().map(|s| s.to_string()).chain(heads.iter().filter(|h| h.1 == 0).map(|h| h.0.clone())).collect();
        let args: Vec<String> = (0..*k).map(|_| { let i = r.below(pool.len()); pool.swap_remove(i) }).collect();
        let inline = silent[i] && *k > 0;
        // rules that are inlined may only call later ones that are, or their inlining does not end
        let scope: Vec<(String, usize)> = heads.iter().enumerate().filter(|(j, h)| !args.contains(&h.0) && (!inline || *j > i || h.1 == 0)).map(|x| x.1.clone()).chain(aliases.iter().map(|a| (a.0.clone(), 0))).collect();
        let body = rand::expr(r, &Scope { rules: &scope, params: &args, kinds }, depth);
        rules.push(Rule { name: name.clone(), args, silent: silent[i], body });
    }
    for t in ["~", "^"] { if !r.one_in(3) { 
        let scope: Vec<(String, usize)> = heads.iter().filter(|h| h.1 == 0).cloned().collect();
        let mut body = rand::expr(r, &Scope { rules: &scope, params: &[], kinds }, 2);
        body = strip(&body);
        let at = r.below(rules.len() + 1);
        rules.insert(at, Rule { name: t.to_string(), args: vec![], silent: false, body });
    } }
    for t in ['~', '^'] { if rules.iter().any(|x| uses(&x.body, t)) && !rules.iter().any(|x| x.name == t.to_string()) { rules.insert(0, Rule { name: t.to_string(), args: vec![], silent: false, body: X::Str(" ".into()) }) } }
    let uses: String = aliases.iter().map(|(a, x)| { let X::Path(p, _) = x else { unreachable!() }; format!("use {} as {a}\n", p.join("::")) }).collect();
    Grammar { text: uses + &render(r, &rules), rules, aliases }
}
pub fn render(r: &mut Rng, rules: &[Rule]) -> String {
    let mut text = String::new();
    for x in rules {
        let args = if x.args.is_empty() { if r.one_in(12) && x.name != "~" && x.name != "^" { "()".into() } else { String::new() } } else { format!("({})", x.args.join(", ")) };
        let t = rand::text(r, &x.body, 0);
        text.push_str(&format!("{}{args} = {}\n", x.name, if x.silent { format!("_{{ {t} }}") } else if r.one_in(2) { format!("{{ {t} }}") } else { t }));
    }
    text
}
fn each(x: &X, f: &mut dyn FnMut(&X)) {
    f(x);
    match x {
        X::Pos(a) | X::Neg(a) | X::Opt(a) | X::Rep(_, _, a, _) | X::Sep(a, _) => each(a, f),
        X::Seq(v) => for (_, a) in v { each(a, f) },
        X::Choice(v) => for a in v { each(a, f) },
        X::Path(_, Args::Call(v)) => for a in v { each(a, f) },
        _ => {}
    }
}
fn uses(x: &X, t: char) -> bool { let mut u = false; each(x, &mut |x| match x { X::Seq(v) => u |= v.iter().any(|y| y.0 == t), X::Rep(_, _, _, s) => u |= *s == t, _ => {} }); u }
/// the expression without trivia
fn strip(x: &X) -> X {
    let b = |a: &X| Box::new(strip(a));
    match x {
        X::Seq(v) => X::Seq(v.iter().map(|(_, a)| ('-', strip(a))).collect()),
        X::Choice(v) => X::Choice(v.iter().map(strip).collect()),
        X::Opt(a) => X::Opt(b(a)), X::Pos(a) => X::Pos(b(a)), X::Neg(a) => X::Neg(b(a)), X::Sep(a, _) => strip(a),
        X::Rep(l, h, a, _) => X::Rep(*l, *h, b(a), '-'),
        X::Path(p, Args::Call(v)) => X::Path(p.clone(), Args::Call(v.iter().map(strip).collect())),
        x => x.clone(),
    }
}
/// `x` with the parameters replaced, all at once
pub fn subst(x: &X, env: &[(String, X)]) -> X {
    let b = |a: &X| Box::new(subst(a, env));
    match x {
        X::Path(p, Args::None) if p.len() == 1 => env.iter().find(|e| e.0 == p[0]).map_or_else(|| x.clone(), |e| e.1.clone()),
        X::Path(p, Args::Call(v)) => X::Path(p.clone(), Args::Call(v.iter().map(|a| subst(a, env)).collect())),
        X::Seq(v) => X::Seq(v.iter().map(|(t, a)| (*t, subst(a, env))).collect()),
        X::Choice(v) => X::Choice(v.iter().map(|a| subst(a, env)).collect()),
        X::Opt(a) => X::Opt(b(a)), X::Pos(a) => X::Pos(b(a)), X::Neg(a) => X::Neg(b(a)), X::Sep(a, t) => X::Sep(b(a), *t),
        X::Rep(l, h, a, t) => X::Rep(*l, *h, b(a), *t),
        x => x.clone(),
    }
}
/// silent rules with parameters stand for their body
fn inline(x: &X, g: &Grammar) -> X {
    let b = |a: &X| Box::new(inline(a, g));
    match x {
        X::Path(p, Args::Call(v)) => {
            let v: Vec<X> = v.iter().map(|a| inline(a, g)).collect();
            match g.rules.iter().find(|r| p.len() == 1 && r.name == p[0] && r.silent && !r.args.is_empty()) {
                Some(r) => subst(&inline(&r.body, g), &r.args.iter().cloned().zip(v).collect::<Vec<_>>()),
                None => X::Path(p.clone(), Args::Call(v)),
            }
        }
        X::Seq(v) => X::Seq(v.iter().map(|(t, a)| (*t, inline(a, g))).collect()),
        X::Choice(v) => X::Choice(v.iter().map(|a| inline(a, g)).collect()),
        X::Opt(a) => X::Opt(b(a)), X::Pos(a) => X::Pos(b(a)), X::Neg(a) => X::Neg(b(a)), X::Sep(a, t) => X::Sep(b(a), *t),
        X::Rep(l, h, a, t) => X::Rep(*l, *h, b(a), *t),
        x => x.clone(),
    }
}
pub fn derive(text: &str, attr: &str) -> Result<Gen, String> {
    caught(|| {
        let attr: proc_macro2::TokenStream = attr.parse().unwrap();
        let input = quote::quote! { #[grammar_inline = #text] #attr struct P; };
        types::read(pest3_generator::typed::derive_typed_parser(input, false, true))
    })
}
/// a rule is inlined where a parameter has the name of a rule it mentions: what that means is not settled by the grammar text
fn captures(g: &Grammar) -> bool {
    let mut free: BTreeSet<String> = BTreeSet::new();
    for r in g.rules.iter().filter(|r| r.silent && !r.args.is_empty()) { each(&r.body, &mut |x| if let X::Path(p, _) = x { if !r.args.contains(&p[0]) { free.insert(p[0].clone()); } }) }
    g.rules.iter().any(|r| r.args.iter().any(|a| free.contains(a)))
}
fn size(x: &X) -> usize { let mut n = 0; each(x, &mut |_| n += 1); n }

/// the derived types of every rule are those of its expression
fn rules_match(g: &Grammar, gen: &Gen, rep: &mut Rep) {
    let m = &gen.root;
    let want: Vec<&Rule> = g.rules.iter().filter(|r| r.name != "~" && r.name != "^" && !(r.silent && !r.args.is_empty())).collect();
    let names: BTreeSet<&str> = want.iter().map(|r| r.name.as_str()).collect();
    let got: BTreeSet<&str> = m.rules.iter().map(|r| r.name.as_str()).collect();
    rep.check(names == got && got.len() == m.rules.len(), || format!("{}: rules {got:?}, expected {names:?}", show(&g.text)));
    let vars: BTreeSet<&str> = m.variants.iter().map(|s| s.as_str()).collect();
    rep.check(names.iter().all(|n| vars.contains(n)), || format!("{}: Rule has variants {vars:?}, expected {names:?}", show(&g.text)));
    for r in &want {
        let Some(t) = m.rules.iter().find(|t| t.name == r.name) else { continue };
        cur(|| format!("rule {} of {}", r.name, show(&g.text)));
        let e = canon(&subst(&inline(&r.body, g), &g.aliases));
        rep.check(same(&canon(&t.expr), &e), || format!("{}: rule {} became {:?}, expected {e:?}", show(&g.text), r.name, canon(&t.expr)));
        rep.check(!t.inner.is_empty() && t.inner.iter().all(|i| same(i, &t.expr)), || format!("{}: rule {} is parsed by {:?} into {:?}", show(&g.text), r.name, t.inner, t.expr));
        rep.check(t.args == r.args, || format!("{}: rule {} has parameters {:?}", show(&g.text), r.name, t.args));
        rep.check(t.pairs == !r.silent, || format!("{}: rule {} {}", show(&g.text), r.name, if t.pairs { "is silent but makes pairs" } else { "makes no pairs" }));
    }
    for (n, got) in [("~", &m.opt), ("^", &m.man)] {
        let e = g.rules.iter().find(|r| r.name == n).map_or(X::Str(String::new()), |r| canon(&subst(&inline(&r.body, g), &g.aliases)));
        rep.check(got.as_ref().map_or(false, |x| same(&canon(x), &e)), || format!("{}: trivia {n} became {got:?}, expected {e:?}", show(&g.text)));
    }
}
/// no rule whose content is stored in place contains itself
fn finite(g: &Grammar, gen: &Gen, rep: &mut Rep) {
    let m = &gen.root;
    let refs = |x: &X| { let mut v: BTreeSet<String> = BTreeSet::new(); each(x, &mut |x| match x {
        X::Path(p, _) => { if p.len() == 1 { v.insert(p[0].clone()); } }
        X::Seq(w) => for (t, _) in w { if *t != '-' { v.insert(t.to_string()); } },
        X::Rep(_, _, _, t) => if *t != '-' { v.insert(t.to_string()); },
        _ => {}
    }); v };
    let mut edges: BTreeMap<String, BTreeSet<String>> = m.rules.iter().filter(|r| !r.boxed).map(|r| (r.name.clone(), refs(&r.expr).into_iter().filter(|n| !r.args.contains(n)).collect())).collect();
    for (n, x) in [("~", &m.opt), ("^", &m.man)] { if let Some(x) = x { edges.insert(n.into(), refs(x)); } }
    for r in m.rules.iter().filter(|r| !r.boxed) {
        let (mut seen, mut todo) = (BTreeSet::new(), vec![r.name.clone()]);
        let mut back = false;
        while let Some(n) = todo.pop() { for k in edges.get(&n).into_iter().flatten() { if *k == r.name { back = true } if seen.insert(k.clone()) { todo.push(k.clone()) } } }
        cur(|| format!("rule {} of {}", r.name, show(&g.text)));
        rep.check(!back, || format!("{}: rule {} is stored in place and contains itself", show(&g.text), r.name));
    }
}
fn derived(prop: &str, thorough: bool, rng: &mut Rng, rep: &mut Rep) {
    let n = match (prop, thorough) { ("C18", false) => 1000, (_, false) => 2500, ("C18", true) => 60000, (_, true) => 40000 };
    let fixed = fixed(prop);
    for i in 0..n + fixed.len() {
        if rep.stop() { return }
        let g = if i < fixed.len() { let rules = fixed[i].clone(); Grammar { text: render(rng, &rules), rules, aliases: vec![] } } else {
            let kinds = if prop == "C17" { Kinds::SeqChoice } else { Kinds::All };
            let depth = 1 + rng.below(4);
            grammar(rng, kinds, prop != "C17", depth)
        };
        if g.rules.iter().map(|r| size(&inline(&r.body, &g))).sum::<usize>() > 400 || captures(&g) { continue }
        cur(|| show(&g.text));
        let attrs: &[&str] = if prop == "C18" { &["", "#[box_all_rules]", "#[box_all_rules = false]"] } else { &["", "#[no_pair = false]"][..1] };
        for attr in attrs {
            match derive(&g.text, attr) {
                Err(e) => { rep.eval(true); if !(e.contains("does not parse") && false) { rep.fail(format!("{}: no parser is generated: {}", show(&g.text), &e.chars().take(300).collect::<String>())) } }
                Ok(gen) => match prop {
                    "C18" => { rep.eval(true); finite(&g, &gen, rep) }
                    _ => { rep.eval(true); rules_match(&g, &gen, rep) }
                },
            }
        }
    }
}
fn fixed(prop: &str) -> Vec<Vec<Rule>> {
    let p = |s: &str| X::Path(vec![s.into()], Args::None);
    let c = |s: &str, v: Vec<X>| X::Path(vec![s.into()], Args::Call(v));
    let s = |x: &str| X::Str(x.into());
    let r = |n: &str, a: &[&str], silent: bool, body: X| Rule { name: n.into(), args: a.iter().map(|x| x.to_string()).collect(), silent, body };
    let seq = |t: char, v: Vec<X>| X::Seq(v.into_iter().enumerate().map(|(i, x)| (if i == 0 { '-' } else { t }, x)).collect());
    if prop == "C18" {
        return vec![
            // recursion through the trivia of a rule
            vec![r("~", &[], false, X::Choice(vec![s(" "), p("comment")])), r("comment", &[], false, seq('~', vec![s("a"), s("b")]))],
            vec![r("^", &[], false, p("comment")), r("~", &[], false, s(" ")), r("comment", &[], false, X::Rep(1, usize::MAX, Box::new(s("b")), '^'))],
            vec![r("~", &[], false, p("x")), r("x", &[], false, seq('-', vec![s("a"), p("y")])), r("y", &[], false, X::Opt(Box::new(seq('~', vec![s("a"), s("b")]))))],
            vec![r("a", &[], false, X::Opt(Box::new(p("b")))), r("b", &[], false, X::Opt(Box::new(p("c")))), r("c", &[], false, X::Opt(Box::new(p("d")))), r("d", &[], false, X::Opt(Box::new(p("e")))), r("e", &[], false, X::Opt(Box::new(p("a"))))],
            vec![r("of", &["e"], false, X::Opt(Box::new(p("e")))), r("a", &[], false, c("of", vec![p("a")]))],
            // recursion through a silent rule that is inlined
            vec![r("q", &["e"], true, X::Choice(vec![p("e"), p("a")])), r("a", &[], false, seq('-', vec![s("x"), c("q", vec![s("b")])]))],
            vec![r("q", &["e"], true, X::Choice(vec![p("e"), p("a")])), r("b", &[], false, seq('-', vec![s("x"), c("q", vec![s("b")])])), r("a", &[], false, X::Opt(Box::new(p("b"))))],
            vec![r("a", &[], false, X::Neg(Box::new(p("b")))), r("b", &[], false, X::Pos(Box::new(p("a"))))],
        ];
    }
    vec![
        vec![r("of", &["e"], false, p("e")), r("quiet", &["e"], true, seq('-', vec![p("e"), s("q")])), r("leaf", &[], false, s("a")), r("top", &[], false, seq('-', vec![c("of", vec![c("quiet", vec![s("b")])]), p("leaf")]))],
        vec![r("f", &[], false, s("x")), r("quiet", &["e", "f"], true, seq('-', vec![p("f"), p("e"), p("e")])), r("top", &[], false, c("quiet", vec![p("f"), s("b")]))],
        vec![r("quiet", &["e"], true, s("k")), r("top", &[], false, X::Opt(Box::new(c("quiet", vec![s("b")]))))],
    ]
}
/// `ParseExpr::replace`, on the parsed form of random expressions
fn replace(thorough: bool, rng: &mut Rng, rep: &mut Rep) {
    fn want(e: &ParseExpr, a: &str, n: &ParseExpr) -> (ParseExpr, bool) {
        let b = |x: &ParseNode| { let (e, f) = want(&x.expr, a, n); (Box::new(ParseNode { expr: e, span: x.span.clone() }), f) };
        match e {
            ParseExpr::Path(p, None) if p.len() == 1 && p[0] == a => (n.clone(), true),
            ParseExpr::Path(p, Some(PathArgs::Call(v))) => { let v: Vec<_> = v.iter().map(b).collect(); (ParseExpr::Path(p.clone(), Some(PathArgs::Call(v.iter().map(|x| (*x.0).clone()).collect()))), v.iter().any(|x| x.1)) }
            ParseExpr::PosPred(x) => { let (x, f) = b(x); (ParseExpr::PosPred(x), f) }
            ParseExpr::NegPred(x) => { let (x, f) = b(x); (ParseExpr::NegPred(x), f) }
            ParseExpr::Opt(x) => { let (x, f) = b(x); (ParseExpr::Opt(x), f) }
            ParseExpr::Rep(x) => { let (x, f) = b(x); (ParseExpr::Rep(x), f) }
            ParseExpr::RepOnce(x) => { let (x, f) = b(x); (ParseExpr::RepOnce(x), f) }
            ParseExpr::RepRange(x, r) => { let (x, f) = b(x); (ParseExpr::RepRange(x, r.clone()), f) }
            ParseExpr::Separated(x, t) => { let (x, f) = b(x); (ParseExpr::Separated(x, t.clone()), f) }
            ParseExpr::Seq(x, y, t) => { let ((x, f), (y, g)) = (b(x), b(y)); (ParseExpr::Seq(x, y, t.clone()), f || g) }
            ParseExpr::Choice(x, y) => { let ((x, f), (y, g)) = (b(x), b(y)); (ParseExpr::Choice(x, y), f || g) }
            e => (e.clone(), false),
        }
    }
    let params: Vec<String> = ["e", "f"].iter().map(|s| s.to_string()).collect();
    let rules: Vec<(String, usize)> = vec![("of".into(), 1), ("pair".into(), 2), ("tri".into(), 3), ("leaf".into(), 0), ("e2".into(), 0), ("m::e".into(), 0), ("e::f".into(), 0), ("m::e::x".into(), 1), ("e".into(), 1)];
    for _ in 0..if thorough { 60000 } else { 5000 } {
        if rep.stop() { return }
        let d = 1 + rng.below(4);
        let x = rand::expr(rng, &Scope { rules: &rules, params: &params, kinds: Kinds::All }, d);
        let y = rand::expr(rng, &Scope { rules: &rules, params: &params, kinds: Kinds::All }, 1);
        if size(&x) > 200 { continue }
        let text = format!("x = {}\ny = {}\n", rand::text(rng, &x, 0), rand::text(rng, &y, 0));
        cur(|| show(&text));
        let Ok(m) = meta(&text) else { rep.fail(format!("{}: not read", show(&text))); continue };
        for a in ["e", "f", "of", "leaf", "pest", "e2", "m", "any"] {
            let (e, f) = want(&m.rules[0].node.expr, a, &m.rules[1].node.expr);
            let mut got = m.rules[0].node.expr.clone();
            let g = got.replace(a, &m.rules[1].node.expr);
            rep.check(got == e, || format!("replacing {a} in {} by {}: {got}, expected {e}", m.rules[0].node, m.rules[1].node));
            rep.check(g == f, || format!("replacing {a} in {}: reported {g}, expected {f}", m.rules[0].node));
        }
    }
}
/// bodies of literals: what they denote (None: malformed)
fn decode(b: &[char]) -> Option<String> {
    let (mut o, mut i) = (String::new(), 0);
    while i < b.len() {
        if b[i] != '\\' { o.push(b[i]); i += 1; continue }
        let c = *b.get(i + 1)?;
        i += 2;
        match c {
            '"' | '\\' | '\'' => o.push(c), 'r' => o.push('\r'), 'n' => o.push('\n'), 't' => o.push('\t'), '0' => o.push('\0'),
            'x' => { let h = b.get(i..i + 2)?; if !h.iter().all(|c| c.is_ascii_hexdigit()) { return None } let v = u32::from_str_radix(&h.iter().collect::<String>(), 16).ok()?; if v > 0x7f { return None } o.push(char::from_u32(v)?); i += 2 }
            'u' => {
                if b.get(i) != Some(&'{') { return None }
                let e = i + b[i..].iter().position(|c| *c == '}')?;
                let h = &b[i + 1..e];
                if h.is_empty() || h.len() > 6 || !h.iter().all(|c| c.is_ascii_hexdigit()) { return None }
                o.push(char::from_u32(u32::from_str_radix(&h.iter().collect::<String>(), 16).ok()?)?);
                i = e + 1;
            }
            _ => return None,
        }
    }
    Some(o)
}
fn literals(thorough: bool, rng: &mut Rng, rep: &mut Rep) {
    let mut one = |body: &str, rep: &mut Rep| {
        let b: Vec<char> = body.chars().collect();
        // an unescaped quote ends the literal
        let mut i = 0;
        let mut plain = true;
        while i < b.len() { if b[i] == '\\' { i += 2 } else { if b[i] == '"' { plain = false } i += 1 } }
        let want = decode(&b);
        for (pre, ins) in [("", false), ("i", true)] {
            if !plain { continue }
            let text = format!("x = {pre}\"{body}\"");
            cur(|| show(&text));
            let got = match meta(&text) { Ok(m) => match &m.rules[0].node.expr { ParseExpr::Str(s) if !ins => Ok(s.clone()), ParseExpr::Insens(s) if ins => Ok(s.clone()), e => Err(format!("{e}")) }, Err(e) => Err(if e.starts_with("panic") { e } else { "rejected".into() }) };
            let ok = match (&want, &got) { (Some(w), Ok(g)) => w == g, (None, Err(e)) => e == "rejected", _ => false };
            rep.check(ok, || format!("{}: the literal denotes {got:?}, expected {want:?}", show(&text)));
        }
        let one_char = b.len() == 1 || b.len() > 1 && b[0] == '\\' && want.as_ref().map_or(false, |w| w.chars().count() == 1);
        if one_char && body != "\\" {
            let text = format!("x = '{body}'..'{body}'");
            cur(|| show(&text));
            let w = want.as_ref().and_then(|s| s.chars().next());
            let got = match meta(&text) { Ok(m) => match &m.rules[0].node.expr { ParseExpr::Range(a, b) if a == b => Some(*a), _ => None }, Err(_) => None };
            rep.check(got == w, || format!("{}: the character is {got:?}, expected {w:?}", show(&text)));
        }
    };
    for b in ["\\x7f", "\\x80", "\\xff", "\\x00", "\\xé", "\\x+1", "\\x 1", "\\x1", "\\x", "\\u", "\\u{", "\\u{}", "\\u{1", "\\u{d800}", "\\u{dfff}", "\\u{110000}", "\\u{10ffff}", "\\u{0000061}", "\\u{+61}", "\\u{ 61}", "\\u61", "\\a", "\\", "\\é", "\\u{000061}\\u{61}\\x61a", "\\\\u{61}", "\\\\\\x61", "\\\"\\'", "é\\né", "'", "\\'"] { one(b, rep) }
    // both ends of a range
    let ends = ['\0', '\t', '\n', '!', '"', '0', '9', 'A', 'Z', '\\', 'a', 'z', '\x7f', '\u{80}', 'é', '\u{ff}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
    for lo in ends {
        for hi in ends {
            let forms = |c: char| {
                let mut v = vec![format!("\\u{{{:x}}}", c as u32), format!("\\u{{{:06X}}}", c as u32)];
                if (c as u32) < 0x80 { v.push(format!("\\x{:02x}", c as u32)) }
                if c != '\\' { v.push(c.to_string()) }
                v
            };
            for x in forms(lo) {
                for y in forms(hi) {
                    let text = format!("x = '{x}'..'{y}'");
                    cur(|| show(&text));
                    let got = match meta(&text) { Ok(m) => match &m.rules[0].node.expr { ParseExpr::Range(a, b) => Ok((*a, *b)), e => Err(format!("{e}")) }, Err(e) => Err(e) };
                    rep.check(got == Ok((lo, hi)), || format!("{}: the range is {got:?}, expected {:?}", show(&text), (lo, hi)));
                }
            }
        }
    }
    // every short combination of pieces
    let pieces = ["\\", "x", "u", "{", "}", "6", "1", "F", "n", "é", "0", "+", "\\x41", "\\u{e9}", "'", "g"];
    let max = if thorough { 5 } else { 3 };
    let mut todo: Vec<Vec<usize>> = vec![vec![]];
    while let Some(v) = todo.pop() {
        if rep.stop() { return }
        one(&v.iter().map(|i| pieces[*i]).collect::<String>(), rep);
        if v.len() < max { for i in 0..pieces.len() { let mut w = v.clone(); w.push(i); todo.push(w) } }
    }
    // code points
    let step = if thorough { 1 } else { 61 };
    let mut n = 0u32;
    while n <= 0x110020 { if rep.stop() { return } one(&format!("\\u{{{n:x}}}"), rep); if let Some(c) = char::from_u32(n) { if n % 7 == 0 && c != '"' && c != '\\' { one(&c.to_string(), rep) } } n += if n < 0x300 { 1 } else { step } }
    for n in 0..256 { one(&format!("\\x{n:02x}"), rep); one(&format!("\\x{n:02X}z"), rep) }
    // raw strings
    for _ in 0..if thorough { 20000 } else { 2000 } {
        let w: String = (0..rng.below(6)).map(|_| *rng.pick(&['a', '"', '#', '\\', 'n', '\n', 'é', ' '])).collect();
        let n = rng.below(4);
        let h = "#".repeat(n);
        if w.contains(&format!("\"{h}")) { continue }
        let text = format!("x = r{h}\"{w}\"{h}");
        cur(|| show(&text));
        let got = match meta(&text) { Ok(m) => match &m.rules[0].node.expr { ParseExpr::Str(s) => Ok(s.clone()), e => Err(e.to_string()) }, Err(e) => Err(e) };
        rep.check(got.as_ref() == Ok(&w), || format!("{}: the raw literal denotes {got:?}, expected {w:?}", show(&text)));
    }
}
/// the parsed form of random grammar texts
fn reading(thorough: bool, rng: &mut Rng, rep: &mut Rep) {
    for _ in 0..if thorough { 40000 } else { 4000 } {
        if rep.stop() { return }
        let d = 1 + rng.below(4);
        let g = grammar(rng, Kinds::All, true, d);
        if g.rules.iter().map(|r| size(&r.body)).sum::<usize>() > 400 { continue }
        cur(|| show(&g.text));
        let m = match meta(&g.text) { Ok(m) => m, Err(e) => { rep.check(false, || format!("{}: not read: {e}", show(&g.text))); continue } };
        rep.check(m.rules.len() == g.rules.len(), || format!("{}: {} rules read, expected {}", show(&g.text), m.rules.len(), g.rules.len()));
        for (a, b) in m.rules.iter().zip(&g.rules) {
            rep.check(a.name == b.name && a.args == b.args && a.silent == b.silent, || format!("{}: rule read as {} {:?} silent {}, expected {} {:?} {}", show(&g.text), a.name, a.args, a.silent, b.name, b.args, b.silent));
            let (x, y) = (canon(&ast(&a.node.expr)), canon(&b.body));
            rep.check(same(&x, &y), || format!("{}: rule {} is read as {x:?}, expected {y:?}", show(&g.text), a.name));
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, thorough, seed, out) = (a[1].clone(), a[2] == "thorough", a[3].parse::<u64>().unwrap_or(1), a[4].clone());
    std::panic::set_hook(Box::new(|_| {}));
    report::watchdog(prop.clone(), out.clone(), 20);
    let mut rep = Rep { prop: prop.clone(), evals: 0, hits: 0, fails: vec![], nfail: 0, known: vec![], samples: vec![] };
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..8 { rng.next(); }
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, || caught(|| match prop.as_str() {
        "C15" => literals(thorough, &mut rng, &mut rep),
        "C16" => { replace(thorough, &mut rng, &mut rep); derived(&prop, thorough, &mut rng, &mut rep) }
        "C17" | "C18" => derived(&prop, thorough, &mut rng, &mut rep),
        "C20" => { reading(thorough, &mut rng, &mut rep); derived(&prop, thorough, &mut rng, &mut rep) }
        "C21" => paths::run(thorough, &mut rng, &mut rep),
        p => panic!("no harness for {p}"),
    })).unwrap().join());
    if let Ok(Err(e)) = &r { println!("harness panicked: {e}"); std::process::exit(3) }
    rep.write(&out);
    println!("{prop}: {} evaluations, {} non-trivial, {} failures", rep.evals, rep.hits, rep.nfail);
    rep.fails.sort_by_key(|f| f.len()); for f in rep.fails.iter().take(5) { println!("FAIL {}", f.chars().take(900).collect::<String>()) }
}
