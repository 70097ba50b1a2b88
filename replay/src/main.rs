//! replay PROP TIER SEED OUT: bounded runs of the real code against the reference semantics.
#![allow(non_camel_case_types, unused_imports, dead_code, clippy::all)]
mod ast;
mod cases;
mod dynamic;
mod report;
mod text;
use ast::*;
use cases::Case;
use pest3_core::{choice::*, sequence::*, token::Pair, typed::{template::*, PairContainer, PairTree, TypedNode, wrapper::String as SW}, Position, Span, Stack};
macro_rules! w { ($($n:ident = $s:expr;)*) => { $(#[derive(Clone, Debug, Hash, PartialEq, Eq)] pub struct $n; impl SW for $n { const CONTENT: &'static str = $s; })* } }
macro_rules! case { ($t:ty) => { Case { name: stringify!($t), kind: <$t as Ast>::KIND, ast: <$t as Ast>::real, parse: cases::parse::<$t>, check: cases::check::<$t>, track: cases::track::<$t>, entries: cases::entries::<$t> } } }
macro_rules! cases { ($($t:ty;)*) => { pub fn catalogue() -> Vec<Case> { vec![$(case!($t)),*] } } }
macro_rules! dyncases { ($($n:expr, $t:ty;)*) => { pub fn dynamic() -> Vec<(Case, usize)> { vec![$((case!($t), $n)),*] } } }
mod nodes { use super::*; include!("nodes.rs"); }
mod catalogue { use super::*; use super::nodes::*; type S<T> = Str<T>; type N<T> = Insens<'static, T>; include!("catalog.rs"); }
mod dyncat { use super::*; use super::nodes::*; use dynamic::Dyn as D; include!("dyncat.rs"); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, out) = (a[1].clone(), a[2].clone(), a[4].clone());
    let thorough = tier == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    report::watchdog(prop.clone(), out.clone(), 20);
    let p2 = prop.clone();
    let seed: u64 = a[3].parse().unwrap_or(1);
    let rep = std::sync::Mutex::new(report::Rep { prop: p2.clone(), evals: 0, hits: 0, fails: vec![], nfail: 0, known: vec![], samples: vec![] });
    let crash = std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, || {
        let step = |f: &mut dyn FnMut(&mut report::Rep)| cases::caught(|| f(&mut rep.lock().unwrap_or_else(|e| e.into_inner()))).err();
        let mut e = vec![];
        e.extend(step(&mut |r| match p2.as_str() {
            "C01" => text::c01(thorough, r),
            "C02" => text::c02(thorough, r),
            "C03" => text::c03(thorough, r),
            "C04" => text::c04(thorough, r),
            "C19" => text::c19(thorough, r),
            "C13" => dynamic::pairs(seed, r),
            "C14" => dynamic::tracker(thorough, seed, r),
            _ => {}
        }));
        e.extend(step(&mut |r| if !["C01", "C02", "C19"].contains(&p2.as_str()) { dynamic::drive(&p2, &dyncat::dynamic(), thorough, seed, r) }));
        e.extend(step(&mut |r| cases::run(&p2, &catalogue::catalogue(), thorough, r)));
        e
    }).unwrap().join().unwrap_or_else(|_| vec!["harness thread".into()]));
    let rep = rep.into_inner().unwrap_or_else(|e| e.into_inner());
    rep.write(&out);
    for e in crash { println!("harness panicked: {e}") }
    println!("{prop}: {} evaluations, {} non-trivial, {} failures", rep.evals, rep.hits, rep.nfail);
    for f in rep.fails.iter().take(5) { println!("FAIL {f}") }
}
