//! Expressions, an executable reference semantics, and the mapping from the real node types.
use pest3_core::typed::{template::*, wrapper::String as SW, NeverFailedTypedNode, PairContainer, PairTree, RuleType, Tracker, TypedNode};
use pest3_core::{choice::*, sequence::*, token::Pair, Position, Span, Stack};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum R { A, B, C, D, EOI }
impl RuleType for R { const EOI: Self = R::EOI; }

pub type I = &'static str;
/// a recorded span: text source, start, end
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Sp(pub I, pub usize, pub usize);
impl Sp { pub fn text(&self) -> &'static str { &self.0[self.1..self.2] } }
pub fn sp(s: &Span<'static>) -> Sp { Sp(s.get_input(), s.start(), s.end()) }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tree {
    Unit, Char(char), Text(I), Span(usize, usize, I), Nl(u8),
    Node(Box<Tree>), Opt(Option<Box<Tree>>), Seq(Vec<Tree>), Choice(usize, Box<Tree>), Rep(Vec<Tree>),
    Rule(R, usize, usize, Box<Tree>),
}
impl Tree {
    /// pairs found in the tree, in order: (self or children)
    pub fn pairs(&self, out: &mut Vec<Pair<R>>) {
        match self {
            Tree::Rule(r, s, e, c) => { let mut ch = vec![]; c.pairs(&mut ch); out.push(Pair { rule: *r, start: *s, end: *e, children: ch }) }
            Tree::Opt(Some(c)) => c.pairs(out),
            Tree::Choice(_, c) => c.pairs(out),
            Tree::Seq(v) | Tree::Rep(v) => for c in v { c.pairs(out) },
            Tree::Node(c) => c.pairs(out),
            _ => {}
        }
    }
    pub fn children(&self) -> Vec<Pair<R>> {
        let mut v = vec![];
        match self { Tree::Rule(_, _, _, c) => c.pairs(&mut v), t => t.pairs(&mut v) }
        v
    }
    pub fn spans(&self, f: &mut dyn FnMut(I, usize, usize)) {
        match self {
            Tree::Span(s, e, i) => f(i, *s, *e),
            Tree::Rule(_, s, e, c) => { f("", *s, *e); c.spans(f) }
            Tree::Opt(Some(c)) | Tree::Choice(_, c) | Tree::Node(c) => c.spans(f),
            Tree::Seq(v) | Tree::Rep(v) => for c in v { c.spans(f) },
            _ => {}
        }
    }
}

/// node kinds interpreted by the reference semantics; the others run the real code
pub const TERM: u32 = 1;
pub const SEQ: u32 = 2;
pub const CHOICE: u32 = 4;
pub const REP: u32 = 8;
pub const PRED: u32 = 16;
pub const STACK: u32 = 32;
pub const RULE: u32 = 64;
pub const ALL: u32 = 127;

/// runs the real node; the last argument: parse (else check)
pub type NativeFn = fn(I, usize, &mut Vec<Sp>, bool) -> Option<(usize, Tree)>;
#[derive(Clone)]
pub enum E {
    Native(NativeFn),
    Str(I), Insens(I), Skip(usize), Range(char, char), Char(char), Any, None_, Empty, Newline, Soi, Eoi, By(fn(char) -> bool),
    PeekAll, Peek, Drop, Pop, PopAll, Slice(isize, Option<isize>), Push(Box<E>),
    Pos(Box<E>), Neg(Box<E>), Opt(Box<E>),
    Seq(Vec<(E, E)>), Choice(Vec<E>), Rep(usize, usize, Box<E>, Box<E>),
    Rule(R, fn(u32) -> E, u32), Dyn(usize),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Trk {
    pub pos: usize, pub positive: bool, pub stack: Vec<(R, usize, bool)>,
    pub attempts: BTreeMap<Option<R>, (Vec<R>, Vec<R>, Vec<String>)>,
}
impl Trk {
    pub fn new(pos: usize) -> Self { Trk { pos, positive: true, stack: vec![], attempts: BTreeMap::new() } }
    fn prepare(&mut self, pos: usize) -> bool {
        if pos < self.pos { return false; }
        if pos > self.pos { self.pos = pos; self.attempts.clear(); }
        true
    }
    fn entry(&mut self, pos: usize) -> &mut (Vec<R>, Vec<R>, Vec<String>) {
        let up = self.stack.iter().rev().find(|f| f.1 != pos).map(|f| f.0);
        self.attempts.entry(up).or_default()
    }
    pub fn special(&mut self, pos: usize, s: String) { if self.prepare(pos) { self.entry(pos).2.push(s) } }
    pub fn enter(&mut self, r: R, pos: usize) {
        if let Some(l) = self.stack.last_mut() { l.2 = true }
        self.stack.push((r, pos, false));
    }
    pub fn leave(&mut self, ok: bool) {
        let (r, pos, ch) = self.stack.pop().unwrap();
        if !ch && self.prepare(pos) && ok != self.positive {
            let p = self.positive;
            let e = self.entry(pos);
            let v = if p { &mut e.0 } else { &mut e.1 };
            if v.last() != Some(&r) { v.push(r) }
        }
    }
}
pub struct M { pub input: I, pub stack: Vec<Sp>, pub trk: Trk, pub fuel: usize, pub parse: bool }
pub struct OutOfFuel;

fn abs(i: isize, len: usize) -> Option<usize> {
    if i >= 0 { if i as usize <= len { Some(i as usize) } else { None } }
    else { let n = i.unsigned_abs(); if n <= len { Some(len - n) } else { None } }
}
type Res = Result<Option<(usize, Tree)>, OutOfFuel>;
impl M {
    fn spans(&self, pos: usize, it: &[Sp]) -> Option<usize> {
        let mut p = pos;
        for s in it { if self.input[p..].starts_with(s.text()) { p += s.text().len() } else { return None } }
        Some(p)
    }
    pub fn ev(&mut self, e: &E, pos: usize) -> Res {
        if self.fuel == 0 { return Err(OutOfFuel) }
        self.fuel -= 1;
        let rest = &self.input[pos..];
        let ch = rest.chars().next();
        let one = |f: &dyn Fn(char) -> bool| ch.filter(|c| f(*c)).map(|c| (pos + c.len_utf8(), Tree::Char(c)));
        Ok(match e {
            E::Native(f) => f(self.input, pos, &mut self.stack, self.parse),
            E::Dyn(k) => { let i = self.input; crate::dynamic::act(*k, i, pos, self).map(|q| (q, crate::dynamic::tree_of(*k, pos, q))) }
            E::Str(s) => rest.starts_with(s).then(|| (pos + s.len(), Tree::Unit)),
            E::Insens(s) => {
                let ok = rest.len() >= s.len() && rest.as_bytes()[..s.len()].iter().zip(s.bytes()).all(|(a, b)| a.to_ascii_lowercase() == b.to_ascii_lowercase());
                if ok { Some((pos + s.len(), Tree::Text(&self.input[pos..pos + s.len()]))) } else { None }
            }
            E::Skip(n) => {
                let mut p = pos; let mut it = rest.chars(); let mut ok = true;
                for _ in 0..*n { match it.next() { Some(c) => p += c.len_utf8(), None => { ok = false; break } } }
                ok.then(|| (p, Tree::Span(pos, p, self.input)))
            }
            E::Range(a, b) => one(&|c| *a <= c && c <= *b),
            E::Char(a) => one(&|c| c == *a).map(|(p, _)| (p, Tree::Unit)),
            E::Any => one(&|_| true),
            E::By(f) => one(f),
            E::None_ => None,
            E::Empty => Some((pos, Tree::Unit)),
            E::Newline => if rest.starts_with("\r\n") { Some((pos + 2, Tree::Nl(0))) } else if rest.starts_with('\n') { Some((pos + 1, Tree::Nl(1))) }
                else if rest.starts_with('\r') { Some((pos + 1, Tree::Nl(2))) } else { None },
            E::Soi => (pos == 0).then_some((pos, Tree::Unit)),
            E::Eoi => rest.is_empty().then_some((pos, Tree::Unit)),
            E::PeekAll | E::PopAll => {
                let v: Vec<Sp> = self.stack.iter().rev().copied().collect();
                let r = self.spans(pos, &v);
                if let (E::PopAll, Some(_)) = (e, r) { self.stack.clear() }
                r.map(|p| (p, Tree::Span(pos, p, self.input)))
            }
            E::Peek => match self.stack.last() {
                Some(s) => rest.starts_with(s.text()).then(|| (pos + s.text().len(), Tree::Span(pos, pos + s.text().len(), self.input))),
                None => { self.trk.special(pos, "EmptyStack".into()); None }
            },
            E::Pop => match self.stack.pop() {
                Some(s) => rest.starts_with(s.text()).then(|| (pos + s.text().len(), Tree::Span(s.1, s.2, s.0))),
                None => { self.trk.special(pos, "EmptyStack".into()); None }
            },
            E::Drop => match self.stack.pop() {
                Some(_) => Some((pos, Tree::Unit)),
                None => { self.trk.special(pos, "EmptyStack".into()); None }
            },
            E::Slice(a, b) => {
                let n = self.stack.len();
                match (abs(*a, n), b.map_or(Some(n), |b| abs(b, n))) {
                    (Some(x), Some(y)) => {
                        let v: Vec<Sp> = if x < y { self.stack[x..y].to_vec() } else { vec![] };
                        self.spans(pos, &v).map(|p| (p, Tree::Unit))
                    }
                    _ => { self.trk.special(pos, format!("SliceOutOfBound({a}, {b:?})")); None }
                }
            }
            E::Push(t) => match self.ev(t, pos)? {
                Some((p, tr)) => { self.stack.push(Sp(self.input, pos, p)); Some((p, Tree::Node(Box::new(tr)))) }
                None => None,
            },
            E::Pos(t) | E::Neg(t) => {
                let save = self.stack.clone(); let pol = self.trk.positive;
                self.trk.positive = matches!(e, E::Pos(_));
                let r = self.ev(t, pos)?;
                self.trk.positive = pol; self.stack = save;
                match (e, r) {
                    // a lookahead lists no pairs, but keeps its content
                    (E::Pos(_), Some((_, t))) => Some((pos, Tree::Node(Box::new(hide(t))))),
                    (E::Neg(_), None) => Some((pos, Tree::Unit)),
                    _ => None,
                }
            }
            E::Opt(t) => {
                let save = self.stack.clone();
                match self.ev(t, pos)? {
                    Some((p, t)) => Some((p, Tree::Opt(Some(Box::new(t))))),
                    None => { self.stack = save; Some((pos, Tree::Opt(None))) }
                }
            }
            E::Seq(v) => {
                let mut p = pos; let mut out = vec![];
                for (i, (triv, t)) in v.iter().enumerate() {
                    if i > 0 { match self.ev(triv, p)? { Some((q, _)) => p = q, None => return Ok(None) } }
                    match self.ev(t, p)? { Some((q, t)) => { p = q; out.push(t) } None => return Ok(None) }
                }
                Some((p, Tree::Seq(out)))
            }
            E::Choice(v) => {
                for (i, t) in v.iter().enumerate() {
                    let save = self.stack.clone();
                    match self.ev(t, pos)? { Some((p, t)) => return Ok(Some((p, Tree::Choice(i, Box::new(t))))), None => self.stack = save }
                }
                None
            }
            E::Rep(min, max, t, triv) => {
                let mut p = pos; let mut out = vec![];
                while out.len() < *max {
                    let save = self.stack.clone();
                    let q = if out.is_empty() { Some(p) } else { self.ev(triv, p)?.map(|x| x.0) };
                    let r = match q { Some(q) => self.ev(t, q)?, None => None };
                    match r { Some((q, t)) => { p = q; out.push(t) } None => { self.stack = save; break } }
                }
                if out.len() < *min { None } else { Some((p, Tree::Rep(out))) }
            }
            E::Rule(r, inner, mode) => {
                self.trk.enter(*r, pos);
                let x = self.ev(&inner(*mode), pos)?;
                self.trk.leave(x.is_some());
                x.map(|(p, t)| (p, Tree::Rule(*r, pos, p, Box::new(t))))
            }
        })
    }
}
/// content of a lookahead: contributes no pairs
fn hide(t: Tree) -> Tree { Tree::Opt(Some(Box::new(strip(t)))) }
fn strip(t: Tree) -> Tree {
    let b = |t: Box<Tree>| Box::new(strip(*t));
    match t {
        Tree::Rule(r, s, e, c) => Tree::Seq(vec![Tree::Span(s, e, ""), Tree::Text(name(r)), strip(*c)]),
        Tree::Node(t) => Tree::Node(b(t)), Tree::Opt(o) => Tree::Opt(o.map(b)), Tree::Choice(i, t) => Tree::Choice(i, b(t)),
        Tree::Seq(v) => Tree::Seq(v.into_iter().map(strip).collect()), Tree::Rep(v) => Tree::Rep(v.into_iter().map(strip).collect()),
        t => t,
    }
}
fn name(r: R) -> I { match r { R::A => "A", R::B => "B", R::C => "C", R::D => "D", R::EOI => "EOI" } }

// ------------------------------------------------------------------------------------------------
pub trait Ast: TypedNode<'static, R> + PairContainer<R> {
    const KIND: u32;
    fn real(mode: u32) -> E;
    fn tree(&self) -> Tree;
    fn ast(mode: u32) -> E { if Self::KIND == 0 || mode & Self::KIND != 0 { Self::real(mode) } else { E::Native(native::<Self>) } }
}
pub fn span_of(s: &Sp) -> Span<'static> { Span::new(s.0, s.1, s.2).unwrap() }
pub fn stack_of(v: &[Sp]) -> Stack<Span<'static>> { let mut s = Stack::new(); for x in v { s.push(span_of(x)) } s }
pub fn stack_to(s: &Stack<Span<'static>>) -> Vec<Sp> { s[0..s.len()].iter().map(sp).collect() }
pub fn native<T: Ast>(input: I, pos: usize, st: &mut Vec<Sp>, parse: bool) -> Option<(usize, Tree)> {
    let mut stack = stack_of(st);
    let p = Position::new(input, pos).unwrap();
    let mut t = Tracker::new(p);
    let r = if parse { T::try_parse_with_partial(p, &mut stack, &mut t).map(|(p, n)| (p.pos(), n.tree())) }
        else { T::check_with_partial(p, &mut stack, &mut t).map(|p| (p.pos(), Tree::Unit)) };
    *st = stack_to(&stack);
    r
}
macro_rules! leaf {
    ($t:ty, [$($g:tt)*], $e:expr, |$s:ident| $tree:expr) => { leaf!($t, TERM, [$($g)*], $e, |$s| $tree); };
    ($t:ty, $k:expr, [$($g:tt)*], $e:expr, |$s:ident| $tree:expr) => {
        impl<$($g)*> Ast for $t { const KIND: u32 = $k; fn real(_m: u32) -> E { $e } fn tree(&self) -> Tree { let $s = self; let _ = $s; $tree } }
    };
}
leaf!(Str<T>, [T: SW + 'static], E::Str(T::CONTENT), |s| Tree::Unit);
leaf!(Insens<'static, T>, [T: SW + 'static], E::Insens(T::CONTENT), |s| Tree::Text(s.content));
leaf!(SkipChar<'static, N>, [const N: usize], E::Skip(N), |s| Tree::Span(s.span.start(), s.span.end(), s.span.get_input()));
leaf!(CharRange<A, B>, [const A: char, const B: char], E::Range(A, B), |s| Tree::Char(s.content));
leaf!(Char<A>, [const A: char], E::Char(A), |s| Tree::Unit);
leaf!(any, [], E::Any, |s| Tree::Char(s.content));
leaf!(NONE, [], E::None_, |s| Tree::Unit);
leaf!(Empty, [], E::Empty, |s| Tree::Unit);
leaf!(newline, [], E::Newline, |s| Tree::Nl(match s.content { NewLineType::CRLF => 0, NewLineType::LF => 1, NewLineType::CR => 2 }));
leaf!(soi, [], E::Soi, |s| Tree::Unit);
leaf!(eoi, [], E::Eoi, |s| Tree::Unit);
leaf!(peek_all<'static>, STACK, [], E::PeekAll, |s| Tree::Span(s.span.start(), s.span.end(), s.span.get_input()));
leaf!(peek<'static>, STACK, [], E::Peek, |s| Tree::Span(s.span.start(), s.span.end(), s.span.get_input()));
leaf!(pop<'static>, STACK, [], E::Pop, |s| Tree::Span(s.span.start(), s.span.end(), s.span.get_input()));
leaf!(pop_all<'static>, STACK, [], E::PopAll, |s| Tree::Span(s.span.start(), s.span.end(), s.span.get_input()));
leaf!(drop, STACK, [], E::Drop, |s| Tree::Unit);
leaf!(PeekSlice2<A, B>, STACK, [const A: isize, const B: isize], E::Slice(A, Some(B)), |s| Tree::Unit);
leaf!(PeekSlice1<A>, STACK, [const A: isize], E::Slice(A, None), |s| Tree::Unit);
impl<T: Ast> Ast for push<T> { const KIND: u32 = STACK; fn real(m: u32) -> E { E::Push(Box::new(T::ast(m))) } fn tree(&self) -> Tree { Tree::Node(Box::new(self.content.tree())) } }
impl<T: Ast> Ast for Positive<T> { const KIND: u32 = PRED; fn real(m: u32) -> E { E::Pos(Box::new(T::ast(m))) } fn tree(&self) -> Tree { Tree::Node(Box::new(hide(self.content.tree()))) } }
impl<T: Ast> Ast for Negative<T> { const KIND: u32 = PRED; fn real(m: u32) -> E { E::Neg(Box::new(T::ast(m))) } fn tree(&self) -> Tree { Tree::Unit } }
impl<T: Ast> Ast for Option<T> { const KIND: u32 = PRED; fn real(m: u32) -> E { E::Opt(Box::new(T::ast(m))) } fn tree(&self) -> Tree { Tree::Opt(self.as_ref().map(|t| Box::new(t.tree()))) } }
impl<T: Ast, TR: Ast, const A: usize, const B: usize> Ast for RepMinMax<T, TR, A, B> {
    const KIND: u32 = REP;
    fn real(m: u32) -> E { E::Rep(A, B, Box::new(T::ast(m)), Box::new(TR::ast(m))) }
    fn tree(&self) -> Tree { Tree::Rep(self.content.iter().map(|t| t.tree()).collect()) }
}
macro_rules! seq { ($n:ident, $(($f:ident, $t:ident, $r:ident)),*) => {
    impl<$($t: Ast, $r: Ast),*> Ast for $n<$($t, $r),*> {
        const KIND: u32 = SEQ;
        fn real(m: u32) -> E { E::Seq(vec![$(($r::ast(m), $t::ast(m))),*]) }
        fn tree(&self) -> Tree { Tree::Seq(vec![$(self.$f.tree()),*]) }
    }
} }
macro_rules! cho { ($n:ident, $(($v:ident, $t:ident, $i:expr)),*) => {
    impl<$($t: Ast),*> Ast for $n<$($t),*> {
        const KIND: u32 = CHOICE;
        fn real(m: u32) -> E { E::Choice(vec![$($t::ast(m)),*]) }
        fn tree(&self) -> Tree { match self { $($n::$v(x) => Tree::Choice($i, Box::new(x.tree())),)* } }
    }
} }
include!("arity.rs");

/// Rule struct, as the generator writes it.
#[macro_export]
macro_rules! rule {
    ($name:ident, $rule:expr, $inner:ty, $content:ty, $stat:ty $(, $arg:ident)*) => {
        #[derive(Clone, Debug, Eq, PartialEq)]
        pub struct $name<'i, $($arg,)*> { pub content: $content, pub span: Span<'i> }
        pest3_core::full_rule_struct!($name, ($($arg),*), R, $rule, $inner, $content,);
        impl<'i, $($arg: PairContainer<R>,)*> PairContainer<R> for $name<'i, $($arg,)*> {
            fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<R>)) { self.content.for_self_or_for_each_child_pair(f) }
            fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<R>)) { f(self.as_pair_tree()) }
        }
        impl<'i, $($arg: PairContainer<R>,)*> PairTree<R> for $name<'i, $($arg,)*> {
            fn get_rule() -> R { $rule }
            fn get_span(&self) -> (usize, usize) { (self.span.start(), self.span.end()) }
        }
        impl<$($arg: Ast,)*> Ast for $name<'static, $($arg,)*> {
            const KIND: u32 = RULE;
            fn real(m: u32) -> E { E::Rule($rule, |m| <$stat as Ast>::ast(m), m) }
            fn tree(&self) -> Tree { Tree::Rule($rule, self.span.start(), self.span.end(), Box::new(self.content.tree())) }
        }
    };
}
pub trait NeverAst: Ast + NeverFailedTypedNode<'static, R> {}
