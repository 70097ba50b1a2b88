//! Runs real nodes and compares them with the reference semantics, per property.
use crate::ast::*;
use crate::report::{cur, Rep};
use pest3_core::typed::{Tracker, TypedNode};
use pest3_core::{token::Pair, Position};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Run { pub end: Option<(usize, bool)>, pub stack: Vec<Sp>, pub balanced: bool, pub tree: Option<Tree>, pub children: Vec<Pair<R>>, pub selfs: Vec<Pair<R>> }
/// what an entry point returned: Ok(end offset if partial) or the error
type Ent = Result<Option<(usize, bool)>, pest3_core::error::Error<R>>;
pub struct Entries { pub parse: Result<(), pest3_core::error::Error<R>>, pub parse_partial: Ent, pub check: Result<(), pest3_core::error::Error<R>>, pub check_partial: Ent }
#[derive(Clone, Copy)]
pub struct Case {
    pub name: &'static str, pub kind: u32, pub ast: fn(u32) -> E,
    pub parse: fn(I, usize, &[Sp]) -> Run, pub check: fn(I, usize, &[Sp]) -> Run,
    pub track: fn(I, usize, &[Sp], bool, bool) -> Trk, pub entries: fn(I) -> Entries,
}
fn on_input(p: &Position<'static>, i: I) -> bool { p.line_of().len() <= i.len() && *p == Position::new(i, p.pos()).unwrap_or(Position::from_start("")) }
fn harness<T: Ast>(input: I, pos: usize, st: &[Sp], parse: bool) -> Run {
    let mut base: Vec<Sp> = st.to_vec();
    base.push(Sp("<extra>", 0, 7));
    let mut s = stack_of(&base);
    s.snapshot();
    s.pop();
    s.snapshot();
    let p = Position::new(input, pos).unwrap();
    let mut t = Tracker::new(p);
    let mut run = Run { end: None, stack: vec![], balanced: false, tree: None, children: vec![], selfs: vec![] };
    if parse {
        if let Some((q, n)) = T::try_parse_with_partial(p, &mut s, &mut t) {
            run.end = Some((q.pos(), on_input(&q, input)));
            run.tree = Some(n.tree());
            run.children = n.vec_children_pairs();
            let mut v = vec![];
            n.for_self_or_for_each_child_pair(&mut |p| v.push(p));
            run.selfs = v;
        }
    } else if let Some(q) = T::check_with_partial(p, &mut s, &mut t) { run.end = Some((q.pos(), on_input(&q, input))) }
    run.stack = stack_to(&s);
    s.restore();
    run.balanced = stack_to(&s) == st;
    s.restore();
    run.balanced &= stack_to(&s) == base;
    run
}
pub fn parse<T: Ast>(input: I, pos: usize, st: &[Sp]) -> Run { harness::<T>(input, pos, st, true) }
pub fn check<T: Ast>(input: I, pos: usize, st: &[Sp]) -> Run { harness::<T>(input, pos, st, false) }
/// canonical name of a special error, from its text
fn special(t: String) -> String {
    if t == "Repeated too many times." { return "RepeatTooManyTimes".into() }
    if t == "Nothing to pop or drop." { return "EmptyStack".into() }
    if let Some((a, b)) = t.strip_prefix("Peek slice ").and_then(|t| t.strip_suffix(" out of bound.")).and_then(|t| t.split_once("..")) {
        return format!("SliceOutOfBound({a}, {})", if b.is_empty() { "None".into() } else { format!("Some({b})") });
    }
    t
}
pub fn to_trk(t: Tracker<'static, R>) -> Trk {
    let (p, a) = t.finish();
    let mut r = Trk::new(p.pos());
    for (k, v) in a { r.attempts.insert(k, (v.0, v.1, v.2.iter().map(|e| special(e.to_string())).collect())); }
    r
}
/// final tracker; with `probe`, an attempt of `D` under rule `C` (started elsewhere) follows, which
/// shows that polarity and enclosing rules were restored
pub fn track<T: Ast>(input: I, pos: usize, st: &[Sp], parse: bool, probe: bool) -> Trk {
    let mut s = stack_of(st);
    let p = Position::new(input, pos).unwrap();
    let end = Position::new(input, input.len()).unwrap();
    let mut t = Tracker::new(p);
    let mut f = |t: &mut Tracker<'static, R>| { if parse { T::try_parse_with_partial(p, &mut s, t).map(|x| x.0) } else { T::check_with_partial(p, &mut s, t) } };
    if probe {
        let _ = t.record_option_during(p, |t| {
            let _ = f(t);
            let _ = t.record_option_during(end, |_| None::<(Position<'static>, ())>, R::D);
            None::<(Position<'static>, ())>
        }, R::C);
    } else { let _ = f(&mut t); }
    to_trk(t)
}
pub fn entries<T: Ast>(input: I) -> Entries {
    Entries {
        parse: T::try_parse(input).map(|_| ()).map_err(|e| *e),
        parse_partial: T::try_parse_partial(input).map(|(p, _)| Some((p.pos(), on_input(&p, input)))).map_err(|e| *e),
        check: T::check(input).map_err(|e| *e),
        check_partial: T::check_partial(input).map(|p| Some((p.pos(), on_input(&p, input)))).map_err(|e| *e),
    }
}
fn collect(e: &E, strs: &mut Vec<I>, chars: &mut Vec<char>, kinds: &mut u32, depth: usize) {
    if depth == 0 { return }
    let d = depth - 1;
    match e {
        E::Str(s) | E::Insens(s) => { strs.push(s); *kinds |= TERM }
        E::Char(c) => { chars.push(*c); *kinds |= TERM }
        E::Range(a, b) => { chars.push(*a); chars.push(*b); *kinds |= TERM }
        E::Push(t) => { *kinds |= STACK; collect(t, strs, chars, kinds, d) }
        E::Pos(t) | E::Neg(t) | E::Opt(t) => { *kinds |= PRED; collect(t, strs, chars, kinds, d) }
        E::Seq(v) => { *kinds |= SEQ; for (a, b) in v { collect(a, strs, chars, kinds, d); collect(b, strs, chars, kinds, d) } }
        E::Choice(v) => { *kinds |= CHOICE; for a in v { collect(a, strs, chars, kinds, d) } }
        E::Rep(_, _, a, b) => { *kinds |= REP; collect(a, strs, chars, kinds, d); collect(b, strs, chars, kinds, d) }
        E::Rule(_, f, m) => { *kinds |= RULE; collect(&f(*m), strs, chars, kinds, d) }
        E::PeekAll | E::Peek | E::Drop | E::Pop | E::PopAll | E::Slice(..) => *kinds |= STACK,
        E::Newline => { *kinds |= TERM; chars.extend(['\r', '\n']) }
        _ => *kinds |= TERM,
    }
}
fn intern(s: String) -> I { Box::leak(s.into_boxed_str()) }
pub fn strings(alpha: &[char], max: usize) -> Vec<I> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last { for c in alpha { let mut t = s.clone(); t.push(*c); next.push(t) } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out.into_iter().map(intern).collect()
}
fn inputs(c: &Case, budget: usize) -> (Vec<I>, u32) {
    let (mut strs, mut chars, mut kinds) = (vec![], vec![], 0);
    collect(&(c.ast)(ALL), &mut strs, &mut chars, &mut kinds, 8);
    let mut alpha: Vec<char> = vec![];
    for s in &strs { for ch in s.chars() { alpha.push(ch); if kinds & !TERM == 0 { alpha.push(if ch.is_ascii_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }) } } }
    for ch in chars { alpha.push(ch); if kinds & !TERM == 0 { for d in [-1i32, 1] { if let Some(x) = char::from_u32((ch as i32 + d) as u32) { alpha.push(x) } } } }
    if kinds & STACK != 0 { alpha.push('a'); alpha.push('b') }
    let mut seen = vec![];
    for ch in alpha { if !seen.contains(&ch) { seen.push(ch) } }
    seen.truncate(5);
    for extra in ['z', 'é'] { if seen.len() < 3 || extra == 'z' { if !seen.contains(&extra) { seen.push(extra) } } }
    let mut max = 1; let mut n = seen.len();
    while max < 7 && n * seen.len() <= budget { max += 1; n *= seen.len() }
    let mut v = strings(&seen, max);
    let words: Vec<I> = strs.iter().copied().filter(|s| s.chars().count() > 1).collect();
    for a in &words { for b in ["", "z", a] { v.push(intern(format!("{a}{b}"))); v.push(intern(format!("{b}{}", a.to_ascii_uppercase()))); v.push(intern(format!("{b} {a}"))); v.push(intern(format!("{b}{}", a.to_ascii_lowercase())));
        for cut in 1..a.len() { if a.is_char_boundary(cut) { v.push(intern(format!("{b}{}", &a[..cut]))) } } } }
    for base in ["a", "ab", "aab", "abab"] { if kinds & !TERM != 0 && seen.contains(&'a') { v.push(intern(base.repeat(5))) } }
    (v, kinds)
}
const STACKS: &[&[Sp]] = &[&[], &[Sp("a", 0, 1)], &[Sp("ab", 0, 1), Sp("ab", 1, 2)], &[Sp("bab", 0, 1), Sp("bab", 1, 3), Sp("bab", 0, 0), Sp("bab", 2, 3)]];

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))
}
/// the reference semantics ends
pub fn settles(c: &Case, input: I, pos: usize, st: &[Sp]) -> bool {
    let mut m = M { input, stack: st.to_vec(), trk: Trk::new(pos), fuel: 400, parse: true };
    matches!(m.ev(&(c.ast)(ALL), pos), Ok(_))
}
fn model(c: &Case, mode: u32, input: I, pos: usize, st: &[Sp], parse: bool) -> Option<(Option<(usize, Tree)>, M)> {
    let mut m = M { input, stack: st.to_vec(), trk: Trk::new(pos), fuel: 20000, parse };
    let e = (c.ast)(mode);
    let r = caught(|| m.ev(&e, pos));
    match r { Ok(Ok(x)) => Some((x, m)), _ => None }
}
/// the kinds of node a property is about (0: all)
pub fn want(prop: &str) -> Option<u32> {
    Some(match prop { "C01" => TERM, "C05" => SEQ | CHOICE, "C06" => REP, "C07" => PRED, "C08" => CHOICE | PRED | REP, "C09" => STACK, "C12" | "C14" | "C13" | "C10" | "C11" | "C02" => 0, _ => return None })
}
pub fn run(prop: &str, cases: &[Case], thorough: bool, rep: &mut Rep) {
    let budget = if thorough { 4000 } else { 700 };
    for c in cases {
        let Some(want) = want(prop) else { return };
        if want != 0 && c.kind & want == 0 { continue }
        let (inputs, kinds) = inputs(c, budget);
        if prop == "C14" && kinds & (RULE | STACK) == 0 { continue }
        for input in &inputs {
            if rep.stop() { return }
            if prop == "C11" { entry(c, input, rep); continue }
            let stacks: &[&[Sp]] = if kinds & STACK != 0 { STACKS } else { &STACKS[..1] };
            for st in stacks {
                let starts: Vec<usize> = (0..=input.len()).filter(|i| input.is_char_boundary(*i)).take(if want == TERM || thorough { 9 } else { 2 }).collect();
                for pos in starts { one(prop, c, input, pos, st, rep); }
            }
        }
    }
}
pub fn one(prop: &str, c: &Case, input: I, pos: usize, st: &[Sp], rep: &mut Rep) {
    cur(|| format!("{}{} on {input:?} at {pos} with stack {st:?}", c.name, crate::dynamic::describe()));
    let what = |msg: String| format!("{}{} on input {input:?} at offset {pos} with match stack {:?}: {msg}", c.name, crate::dynamic::describe(), st.iter().map(|s| s.text()).collect::<Vec<_>>());
    let mode = match prop { "C01" => TERM, "C05" => SEQ | CHOICE, "C06" => REP, "C07" => PRED, "C08" => CHOICE | PRED | REP, "C09" => STACK, "C14" => ALL, _ => 0 };
    let p = caught(|| (c.parse)(input, pos, st));
    let k = caught(|| (c.check)(input, pos, st));
    rep.eval(matches!(&p, Ok(r) if r.end.is_some()));
    match prop {
        "C02" => {
            for (n, r) in [("parse", &p), ("check", &k)] {
                match r {
                    Err(e) => rep.fail(what(format!("{n} panics: {e}"))),
                    Ok(r) => {
                        if let Some((e, same)) = r.end {
                            if !same { rep.fail(what(format!("{n} ends in another input"))) }
                            if e < pos || !input.is_char_boundary(e) { rep.fail(what(format!("{n} ends at invalid offset {e}"))) }
                        }
                        for s in &r.stack { if !ok_span(s.0, s.1, s.2) { rep.fail(what(format!("{n} leaves invalid span {s:?} on the stack"))) } }
                        if let Some(t) = &r.tree { let mut bad = None; t.spans(&mut |i, s, e| if !ok_span(if i.is_empty() { input } else { i }, s, e) { bad = Some((s, e)) });
                            if let Some(b) = bad { rep.fail(what(format!("{n} builds invalid span {b:?}"))) } }
                    }
                }
            }
            return;
        }
        "C10" => {
            match (&p, &k) {
                (Ok(a), Ok(b)) => {
                    if a.end != b.end || a.stack != b.stack { rep.fail(what(format!("parse ends at {:?} with stack {:?}, check at {:?} with stack {:?}", a.end, a.stack, b.end, b.stack))) }
                    if let (Ok(x), Ok(y)) = (caught(|| (c.track)(input, pos, st, true, false)), caught(|| (c.track)(input, pos, st, false, false))) {
                        if a.end.is_none() && x != y { rep.fail(what(format!("parse fails with {x:?}, check with {y:?}"))) }
                    }
                    if st.is_empty() && pos == 0 { if let Ok(e) = caught(|| (c.entries)(input)) {
                        if e.parse != e.check { rep.fail(what(format!("try_parse gives {:?}, check gives {:?}", e.parse, e.check))) }
                        if e.parse_partial != e.check_partial { rep.fail(what(format!("try_parse_partial gives {:?}, check_partial gives {:?}", e.parse_partial, e.check_partial))) }
                    } }
                }
                (Err(e), Ok(_)) => rep.fail(what(format!("parse panics ({e}), check does not"))),
                (Ok(_), Err(e)) => rep.fail(what(format!("check panics ({e}), parse does not"))),
                _ => {}
            }
            return;
        }
        "C13" => {
            if let Ok(r) = &p { if let Some(t) = &r.tree {
                let want = t.children();
                let mut selfs = vec![]; t.pairs(&mut selfs);
                if r.children != want { rep.fail(what(format!("lists children {:?}, the matched content holds {:?}", r.children, want))) }
                if r.selfs != selfs { rep.fail(what(format!("lists {:?}, the matched content holds {:?}", r.selfs, selfs))) }
                for q in &selfs {
                    let conv: Pair<u8> = q.convert(&|r| r as u8 + 10);
                    if !same_pair(q, &conv) { rep.fail(what(format!("{q:?} converts to {conv:?}"))) }
                }
            } }
            return;
        }
        "C12" => {
            // the tree against the reference (only where both agree on the match itself)
            if let (Ok(r), Some((Some((e, t)), _))) = (&p, model(c, ALL, input, pos, st, true)) {
                if r.end.map(|x| x.0) == Some(e) && r.tree.as_ref() != Some(&t) { rep.fail(what(format!("tree is {:?}, the match was {:?}", r.tree, t))) }
            }
            return;
        }
        _ => {}
    }
    for (n, r) in [("parse", &p), ("check", &k)] {
        let Some((want, m)) = model(c, mode, input, pos, st, n == "parse") else { return };
        let wend = want.as_ref().map(|x| x.0);
        match r {
            Err(e) => rep.fail(what(format!("{n} panics ({e}); expected {wend:?}"))),
            Ok(r) => {
                let end = r.end.map(|x| x.0);
                match prop {
                    "C14" => {
                        if end != wend { return }
                        let Ok(t) = caught(|| (c.track)(input, pos, st, n == "parse", false)) else { return };
                        let mut w = m.trk.clone(); w.stack.clear(); w.positive = true;
                        if t != w { rep.fail(what(format!("{n} leaves tracker {t:?}, expected {w:?}"))) }
                        let mut pm = M { input, stack: st.to_vec(), trk: Trk::new(pos), fuel: 20000, parse: true };
                        pm.trk.enter(R::C, pos);
                        let _ = pm.ev(&(c.ast)(ALL), pos);
                        pm.trk.enter(R::D, input.len()); pm.trk.leave(false); pm.trk.leave(false);
                        if let Ok(t) = caught(|| (c.track)(input, pos, st, n == "parse", true)) {
                            if t != pm.trk { rep.fail(what(format!("{n} leaves polarity or enclosing rules changed: a following attempt of D under C is tracked as {t:?}, expected {:?}", pm.trk))) }
                        }
                        if st.is_empty() && pos == 0 && n == "parse" { error_text(c, input, &m.trk, want.is_none(), rep) }
                    }
                    "C08" => {
                        if !r.balanced { rep.fail(what(format!("{n} does not leave the snapshots taken before it as they were"))) }
                        if end == wend && r.stack != m.stack { rep.fail(what(format!("{n} leaves stack {:?}, expected {:?}", r.stack, m.stack))) }
                    }
                    _ => {
                        if end != wend { rep.fail(what(format!("{n} ends at {end:?}, expected {wend:?}"))) }
                        else if r.stack != m.stack && (end.is_some() || prop == "C07" || prop == "C01") { rep.fail(what(format!("{n} leaves stack {:?}, expected {:?}", r.stack, m.stack))) }
                    }
                }
            }
        }
    }
}
fn error_text(c: &Case, input: I, t: &Trk, failed: bool, rep: &mut Rep) {
    if !failed { return }
    let Ok(e) = caught(|| (c.entries)(input)) else { return };
    if let Err(err) = e.parse_partial { error_lists(&|| format!("{}{} on {input:?}", c.name, crate::dynamic::describe()), &err, input, t, rep) }
}
pub fn error_lists(what: &dyn Fn() -> String, err: &pest3_core::error::Error<R>, input: I, t: &Trk, rep: &mut Rep) {
    use pest3_core::error::LineColLocation as L;
    let p = &input[..t.pos];
    let want = (1 + p.matches('\n').count(), 1 + p.rsplit('\n').next().unwrap().chars().count());
    if !matches!(err.line_col, L::Pos(x) if x == want) { rep.fail(format!("{}: error is located at {:?}, the furthest failure is at {want:?}", what(), err.line_col)) }
    let msg = format!("{:?}", err.variant);
    let body = msg.split("^---").nth(1).unwrap_or("");
    for r in [R::A, R::B, R::C, R::D, R::EOI] {
        let name = format!("{r:?}");
        let in_model = t.attempts.iter().any(|(k, v)| *k == Some(r) || v.0.contains(&r) || v.1.contains(&r));
        // rule names are single capital letters (or EOI), which occur nowhere else in the text after the caret
        let in_msg = body.split(|ch: char| !ch.is_alphanumeric()).any(|w| w == name);
        if in_model != in_msg { rep.fail(format!("{}: error text {msg:?} does not list exactly the attempts {:?}", what(), t.attempts)) }
    }
}
pub fn same_pair(a: &Pair<R>, b: &Pair<u8>) -> bool {
    a.rule as u8 + 10 == b.rule && a.start == b.start && a.end == b.end && a.children.len() == b.children.len() && a.children.iter().zip(&b.children).all(|(x, y)| same_pair(x, y))
}
fn ok_span(i: I, s: usize, e: usize) -> bool { s <= e && i.is_char_boundary(s) && i.is_char_boundary(e) }
pub fn entry(c: &Case, input: I, rep: &mut Rep) {
    cur(|| format!("{} entry points on {input:?}", c.name));
    let Ok(e) = caught(|| (c.entries)(input)) else { rep.fail(format!("{} on {input:?}: an entry point panics", c.name)); return };
    let Ok(p) = caught(|| (c.parse)(input, 0, &[])) else { return };
    let Ok(k) = caught(|| (c.check)(input, 0, &[])) else { return };
    rep.eval(p.end.is_some());
    let full = |r: &Run| matches!(r.end, Some((n, true)) if n == input.len());
    for (n, got, want) in [("try_parse", e.parse.is_ok(), full(&p)), ("check", e.check.is_ok(), full(&k))] {
        if got != want { rep.fail(format!("{}::{n}({input:?}) is {}, though the match from the start of the input ends at {:?}", c.name, if got { "Ok" } else { "Err" }, p.end)) }
    }
    for (n, got, want) in [("try_parse_partial", &e.parse_partial, &p.end), ("check_partial", &e.check_partial, &k.end)] {
        let got = match got { Ok(x) => *x, Err(_) => None };
        if got != *want { rep.fail(format!("{}::{n}({input:?}) ends at {got:?}, the match ends at {want:?}", c.name)) }
    }
}
