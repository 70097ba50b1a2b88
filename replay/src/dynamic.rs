//! Scripted nodes: what `Dyn<K>` does is read from a table, so that a combinator is run with children of
//! every kind of behaviour (match, fail, push, pop, attempts), and compared with the reference semantics.
use crate::ast::*;
use crate::cases::{self, Case};
use crate::report::Rep;
use pest3_core::typed::{NeverFailedTypedNode, PairContainer, PairTree, Tracker, TypedNode};
use pest3_core::{token::Pair, Position, Span, Stack};
use std::cell::{Cell, RefCell};

pub const SLOTS: usize = 40;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Fail, Nothing, A, Any }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St { Keep, Push, Pop, PopPush, PopPopPush, Clear }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At { No, Fails, Passes, Special, FailsAhead }
#[derive(Clone, Copy, PartialEq)]
pub struct B(pub End, pub St, pub At);
thread_local! {
    static TABLE: RefCell<[B; SLOTS]> = const { RefCell::new([B(End::Fail, St::Keep, At::No); SLOTS]) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
}
pub fn describe() -> String {
    let n = USED.with(|u| u.get());
    if n == 0 { return String::new() }
    TABLE.with(|t| {
        let v: Vec<String> = t.borrow()[..n].iter().enumerate().map(|(k, b)| {
            let mut s = vec![];
            match b.1 { St::Keep => {} St::Push => s.push("pushes the next char"), St::Pop => s.push("pops"), St::PopPush => s.push("pops, pushes the next char"), St::PopPopPush => s.push("pops twice, pushes the next char"), St::Clear => s.push("pops everything") }
            match b.2 { At::No => {} At::Fails => s.push("fails to match a rule here"), At::Passes => s.push("matches a rule here"), At::Special => s.push("reports an empty stack here"), At::FailsAhead => s.push("fails to match a rule one char ahead") }
            s.push(match b.0 { End::Fail => "fails", End::Nothing => "matches nothing", End::A => "matches 'a'", End::Any => "matches any char" });
            format!("Dyn<{k}> {}", s.join(", "))
        }).collect();
        format!(" where {}", v.join("; "))
    })
}
pub trait Env {
    fn push(&mut self, a: usize, b: usize);
    fn pop(&mut self) -> bool;
    fn attempt(&mut self, pos: usize, r: R, ok: bool);
    fn special(&mut self, pos: usize);
}
impl Env for M {
    fn push(&mut self, a: usize, b: usize) { let i = self.input; self.stack.push(Sp(i, a, b)) }
    fn pop(&mut self) -> bool { self.stack.pop().is_some() }
    fn attempt(&mut self, pos: usize, r: R, ok: bool) { self.trk.enter(r, pos); self.trk.leave(ok) }
    fn special(&mut self, pos: usize) { self.trk.special(pos, "EmptyStack".into()) }
}
struct Real<'a>(I, &'a mut Stack<Span<'static>>, &'a mut Tracker<'static, R>);
impl Env for Real<'_> {
    fn push(&mut self, a: usize, b: usize) { self.1.push(Span::new(self.0, a, b).unwrap()) }
    fn pop(&mut self) -> bool { self.1.pop().is_some() }
    fn attempt(&mut self, pos: usize, r: R, ok: bool) { let p = Position::new(self.0, pos).unwrap(); let _ = self.2.record_option_during(p, |_| ok.then_some((p, ())), r); }
    fn special(&mut self, pos: usize) { self.2.empty_stack(Position::new(self.0, pos).unwrap()) }
}
fn rule_of(k: usize) -> R { [R::A, R::B, R::C, R::D][k % 4] }
pub fn act<T: Env>(k: usize, input: I, pos: usize, env: &mut T) -> Option<usize> {
    let b = TABLE.with(|t| t.borrow()[k]);
    let next = input[pos..].chars().next();
    let after = pos + next.map_or(0, char::len_utf8);
    match b.1 {
        St::Keep => {}
        St::Push => env.push(pos, after),
        St::Pop => { env.pop(); }
        St::PopPush => { env.pop(); env.push(pos, after) }
        St::PopPopPush => { env.pop(); env.pop(); env.push(pos, after) }
        St::Clear => while env.pop() {},
    }
    match b.2 {
        At::No => {}
        At::Fails => env.attempt(pos, rule_of(k), false),
        At::Passes => env.attempt(pos, rule_of(k), true),
        At::Special => env.special(pos),
        At::FailsAhead => env.attempt(after, rule_of(k), false),
    }
    match b.0 {
        End::Fail => None,
        End::Nothing => Some(pos),
        End::A => (next == Some('a')).then_some(after),
        End::Any => next.map(|_| after),
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Dyn<const K: usize> { pub s: usize, pub e: usize }
fn run<const K: usize>(p: Position<'static>, stack: &mut Stack<Span<'static>>, tracker: &mut Tracker<'static, R>) -> Option<(Position<'static>, Dyn<K>)> {
    CALLS.with(|c| { c.set(c.get() + 1); if c.get() > 20000 { panic!("endless loop") } });
    // the input is recovered from the position: Dyn nodes are only run on leaked text
    let input: I = INPUT.with(|i| i.get());
    act(K, input, p.pos(), &mut Real(input, stack, tracker)).map(|q| (Position::new(input, q).unwrap(), Dyn { s: p.pos(), e: q }))
}
thread_local! { static INPUT: Cell<I> = const { Cell::new("") }; }
pub fn set_input(i: I) { INPUT.with(|x| x.set(i)); CALLS.with(|c| c.set(0)) }
impl<const K: usize> TypedNode<'static, R> for Dyn<K> {
    fn try_parse_with_partial(p: Position<'static>, s: &mut Stack<Span<'static>>, t: &mut Tracker<'static, R>) -> Option<(Position<'static>, Self)> { run::<K>(p, s, t) }
    fn check_with_partial(p: Position<'static>, s: &mut Stack<Span<'static>>, t: &mut Tracker<'static, R>) -> Option<Position<'static>> { run::<K>(p, s, t).map(|x| x.0) }
}
impl<const K: usize> PairContainer<R> for Dyn<K> {
    fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<R>)) { f(Pair { rule: R::EOI, start: self.s, end: self.e, children: vec![] }) }
    fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<R>)) { f(self.as_pair_tree()) }
}
impl<const K: usize> PairTree<R> for Dyn<K> {
    fn get_rule() -> R { rule_of(K) }
    fn get_span(&self) -> (usize, usize) { (self.s, self.e) }
}
pub fn tree_of(k: usize, s: usize, e: usize) -> Tree { Tree::Rule(rule_of(k), s, e, Box::new(Tree::Rule(R::EOI, s, e, Box::new(Tree::Unit)))) }
impl<const K: usize> Ast for Dyn<K> {
    const KIND: u32 = 0;
    fn real(_m: u32) -> E { E::Dyn(K) }
    fn tree(&self) -> Tree { tree_of(K, self.s, self.e) }
}
/// behaviours that matter on their own
const CORE: &[B] = &[
    B(End::Fail, St::Keep, At::No), B(End::Nothing, St::Keep, At::No), B(End::A, St::Keep, At::No), B(End::Any, St::Keep, At::No),
    B(End::Fail, St::Push, At::No), B(End::A, St::Push, At::No), B(End::Fail, St::Pop, At::No), B(End::Nothing, St::Pop, At::No),
    B(End::Fail, St::PopPush, At::No), B(End::A, St::PopPush, At::No), B(End::Fail, St::Clear, At::No), B(End::Any, St::Clear, At::No),
    B(End::Fail, St::PopPopPush, At::No), B(End::Fail, St::Keep, At::Fails), B(End::A, St::Keep, At::Fails), B(End::A, St::Keep, At::Passes),
    B(End::Nothing, St::Push, At::FailsAhead), B(End::A, St::Keep, At::Special),
];
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 11) as usize % n }
}
fn any_b(r: &mut Rng, matching: bool) -> B {
    let e = if matching { [End::Nothing, End::A, End::Any, End::Any][r.below(4)] } else { [End::Fail, End::Nothing, End::A, End::Any][r.below(4)] };
    let s = [St::Keep, St::Keep, St::Keep, St::Push, St::Pop, St::PopPush, St::PopPopPush, St::Clear][r.below(8)];
    let a = [At::No, At::No, At::Fails, At::Passes, At::Special, At::FailsAhead][r.below(6)];
    B(e, s, a)
}
const STACKS: &[&[Sp]] = &[&[], &[Sp("bab", 0, 1), Sp("bab", 1, 3), Sp("bab", 0, 0)]];
/// nk: how many scripted children the case has
pub fn drive(prop: &str, cases: &[(Case, usize)], thorough: bool, seed: u64, rep: &mut Rep) {
    let inputs: &[I] = &["", "a", "ab", "éaa"];
    for (c, nk) in cases {
        if let Some(w) = cases::want(prop) { if w != 0 && c.kind & w == 0 { continue } } else { return }
        let mut rng = Rng(0x9e3779b97f4a7c15 ^ seed.wrapping_mul(0x2545f4914f6cdd1d));
        let all = CORE.len().saturating_pow(*nk as u32);
        let small = all <= 400;
        let tables: usize = (if small { all } else { 0 }) + if thorough { 3000 } else if *nk <= 4 { 400 } else { 250 };
        let failed = rep.nfail;
        for n in 0..tables {
            if rep.stop() { USED.with(|u| u.set(0)); return }
            if rep.nfail > failed + 6 { break }
            let exhaustive = small && n < all;
            let long: I = if *nk > 4 { ["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "abaabaaabaababaababaababaabaabaabaa", "aéaaaébaaaaaéaaaaaaaaaaaaaaaaaaaaaa"][rng.below(3)] } else { ["aaaa", "aba", "aéa"][rng.below(3)] };
            TABLE.with(|t| {
                let mut t = t.borrow_mut();
                let mut x = n;
                // mostly matching children, so that late ones are reached
                let p = rng.below(4);
                for k in 0..*nk {
                    t[k] = if exhaustive { let b = CORE[x % CORE.len()]; x /= CORE.len(); b } else { let m = rng.below(*nk + 2) > p; any_b(&mut rng, m) };
                }
                if !exhaustive && n % 3 == 0 {
                    // one child decides, the others all match or all fail
                    let (k, fail) = (rng.below(*nk), n % 2 == 0);
                    for j in 0..*nk { if j != k { let st = t[j].1; t[j] = if fail { B(End::Fail, if n % 4 == 0 { st } else { St::Keep }, t[j].2) } else { B(End::A, St::Keep, t[j].2) } } }
                }
            });
            USED.with(|u| u.set(*nk));
            let go = |input: I, rep: &mut Rep| {
                if prop == "C11" { set_input(input); if cases::settles(c, input, 0, &[]) { cases::entry(c, input, rep) } return }
                for st in STACKS {
                    if !cases::settles(c, input, 0, st) { continue }
                    for pos in if input.starts_with('é') { [0, 2] } else { [0, input.len().min(1)] } { set_input(input); cases::one(prop, c, input, pos, st, rep); if input.is_empty() { break } }
                }
            };
            if *nk <= 4 { for i in inputs { go(i, rep) } }
            go(long, rep);
        }
        USED.with(|u| u.set(0));
    }
}
// ------------------------------------------------------------------------------------------------
/// a tree of tracker operations
#[derive(Clone, Debug)]
pub enum Op { Rule(R, usize, bool, Vec<Op>), Pos(Vec<Op>), Neg(Vec<Op>), Empty(usize), Slice(usize), Many(usize) }
fn real_ops(v: &[Op], input: I, t: &mut Tracker<'static, R>) {
    let at = |p: &usize| Position::new(input, *p).unwrap();
    for (i, o) in v.iter().enumerate() {
        match o {
            Op::Rule(r, p, ok, c) => {
                let p = at(p);
                if (i + p.pos()) % 2 == 0 { let _ = t.record_option_during(p, |t| { real_ops(c, input, t); ok.then_some((p, ())) }, *r); }
                else { let _ = t.record_empty_during::<()>(p, |t| { real_ops(c, input, t); ok.then_some(p) }, *r); }
            }
            Op::Pos(c) => t.positive_during(|t| real_ops(c, input, t)),
            Op::Neg(c) => t.negative_during(|t| real_ops(c, input, t)),
            Op::Empty(p) => t.empty_stack(at(p)),
            Op::Slice(p) => t.out_of_bound(at(p), -3, Some(7)),
            Op::Many(p) => t.repeat_too_many_times(at(p)),
        }
    }
}
fn model_ops(v: &[Op], t: &mut Trk) {
    for o in v {
        match o {
            Op::Rule(r, p, ok, c) => { t.enter(*r, *p); model_ops(c, t); t.leave(*ok) }
            Op::Pos(c) | Op::Neg(c) => { let s = t.positive; t.positive = matches!(o, Op::Pos(_)); model_ops(c, t); t.positive = s }
            Op::Empty(p) => t.special(*p, "EmptyStack".into()),
            Op::Slice(p) => t.special(*p, "SliceOutOfBound(-3, Some(7))".into()),
            Op::Many(p) => t.special(*p, "RepeatTooManyTimes".into()),
        }
    }
}
fn some_ops(r: &mut Rng, depth: usize, near: usize) -> Vec<Op> {
    let n = if depth == 0 { 0 } else { 1 + r.below(3) };
    (0..n).map(|_| {
        // positions mostly stay where they are or move on, as in a parse
        let p = match r.below(4) { 0 => r.below(4), 1 => (near + 1).min(3), _ => near };
        match r.below(9) {
            0 => Op::Empty(p), 1 => Op::Slice(p), 2 => Op::Many(p),
            3 => Op::Pos(some_ops(r, depth - 1, near)), 4 => Op::Neg(some_ops(r, depth - 1, near)),
            _ => { let rule = [R::A, R::B, R::C, R::D][r.below(4)]; let ok = r.below(3) == 0; Op::Rule(rule, p, ok, some_ops(r, depth - 1, p)) }
        }
    }).collect()
}
pub fn tracker(thorough: bool, seed: u64, rep: &mut Rep) {
    let mut rng = Rng(0x1234567 ^ seed.wrapping_mul(0x9e3779b97f4a7c15));
    let input = "a\nb";
    let failed = rep.nfail;
    for n in 0..if thorough { 200000 } else { 15000 } {
        if rep.nfail > failed + 6 { return }
        let v = some_ops(&mut rng, 1 + n % 4, 0);
        let mut m = Trk::new(0);
        model_ops(&v, &mut m);
        let real = cases::caught(|| { let mut t = Tracker::new(Position::from_start(input)); real_ops(&v, input, &mut t); cases::to_trk(t) });
        let ok = real.as_ref() == Ok(&m);
        rep.check(ok, || format!("tracker operations {v:?} on {input:?} record {real:?}, expected {m:?}"));
        if !ok || n % 8 == 0 {
            // the collected error names the furthest position and the attempts recorded there
            let err = cases::caught(|| { let mut t = Tracker::new(Position::from_start(input)); real_ops(&v, input, &mut t); t.collect() });
            match err { Ok(e) => cases::error_lists(&|| format!("tracker operations {v:?} on {input:?}"), &e, input, &m, rep), Err(e) => rep.fail(format!("collecting the error of tracker operations {v:?} panics: {e}")) }
        }
    }
}
/// Pair::convert keeps everything but the rule
pub fn pairs(seed: u64, rep: &mut Rep) {
    let mut rng = Rng(0x777 ^ seed.wrapping_mul(0x9e3779b97f4a7c15));
    fn make(r: &mut Rng, d: usize) -> Pair<R> {
        let n = if d == 0 { 0 } else { r.below(4) };
        Pair { rule: [R::A, R::B, R::C, R::D, R::EOI][r.below(5)], start: r.below(9), end: r.below(99), children: (0..n).map(|_| make(r, d - 1)).collect() }
    }
    for n in 0..3000 {
        let p = make(&mut rng, n % 5);
        let c = cases::caught(|| p.convert(&|r| r as u8 + 10));
        rep.check(matches!(&c, Ok(c) if cases::same_pair(&p, c)), || format!("{p:?} converts to {c:?}"));
    }
}
