//! Random grammars and their text.
use crate::grammar::{Args, X};
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 33 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kinds { SeqChoice, All }
pub struct Scope<'a> { pub rules: &'a [(String, usize)], pub params: &'a [String], pub kinds: Kinds }
pub const CHARS: &[char] = &['a', 'b', 'z', '"', '\'', '\\', '\n', '\t', '\r', '\0', ' ', '#', '{', '}', '\u{1}', '\u{7f}', '\u{80}', 'é', '☃', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{1F600}'];
pub fn word(r: &mut Rng) -> String { let n = if r.one_in(12) { 0 } else { 1 + r.below(3) }; (0..n).map(|_| if r.one_in(3) { *r.pick(CHARS) } else { *r.pick(&['a', 'b', 'c', 'd']) }).collect() }
pub fn trivia(r: &mut Rng) -> char { *r.pick(&['-', '~', '^']) }
pub fn expr(r: &mut Rng, s: &Scope, depth: usize) -> X {
    let d = depth.saturating_sub(1);
    if depth == 0 || r.one_in(6) { return leaf(r, s, d) }
    let n = if s.kinds == Kinds::SeqChoice { 6 } else { 13 };
    match r.below(n) {
        0..=2 => { let w = if r.one_in(8) { 17 } else { 3 }; let k = 2 + r.below(w); X::Seq((0..k).map(|i| (if i == 0 { '-' } else { trivia(r) }, expr(r, s, d))).collect()) }
        3..=5 => { let w = if r.one_in(8) { 17 } else { 3 }; let k = 2 + r.below(w); X::Choice((0..k).map(|_| expr(r, s, d)).collect()) }
        6 => X::Opt(Box::new(expr(r, s, d))),
        7 => X::Pos(Box::new(expr(r, s, d))),
        8 => X::Neg(Box::new(expr(r, s, d))),
        9 => X::Rep(0, usize::MAX, Box::new(expr(r, s, d)), trivia(r)),
        10 => X::Rep(1, usize::MAX, Box::new(expr(r, s, d)), trivia(r)),
        11 => { let a = r.below(4); let b = [usize::MAX, a + 1 + r.below(3), a + 1, a.max(1)][r.below(4)]; X::Rep(a, b, Box::new(expr(r, s, d)), trivia(r)) }
        _ => leaf(r, s, d),
    }
}
fn leaf(r: &mut Rng, s: &Scope, d: usize) -> X {
    let p = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
    if s.kinds == Kinds::All {
        match r.below(12) {
            0 => return X::Ins(word(r)),
            1 => { let (a, b) = (*r.pick(CHARS), *r.pick(CHARS)); return X::Range(a, b) }
            2 => return X::Path(p(&["pest", *r.pick(&["any", "soi", "eoi", "newline", "ascii_digit", "ascii_nonzero_digit", "ascii_bin_digit", "ascii_oct_digit", "ascii_hex_digit", "ascii_alpha_lower", "ascii_alpha_upper", "ascii_alpha", "ascii_alphanumeric", "ascii"])]), Args::None),
            3 => return X::Path(p(&["pest", "stack", *r.pick(&["peek", "peek_all", "pop", "pop_all", "drop"])]), Args::None),
            4 => { let v = [None, Some(0), Some(1), Some(2), Some(-1), Some(-3)]; let (a, b) = (*r.pick(&v), *r.pick(&v)); return X::Path(p(&["pest", "stack", "peek"]), Args::Slice(a, b)) }
            5 => return X::Path(p(&["pest", "stack", "push"]), Args::Call(vec![expr(r, s, d)])),
            6 => return X::Path(p(&["pest", "unicode", *r.pick(&["alphabetic", "uppercase", "math", "han"])]), Args::None),
            _ => {}
        }
    }
    if !s.params.is_empty() && r.one_in(2) { return X::Path(vec![r.pick(s.params).clone()], Args::None) }
    let v: Vec<_> = s.rules.iter().filter(|x| x.1 == 0 || d > 0).collect();
    if !v.is_empty() && !r.one_in(3) {
        let (n, k) = *r.pick(&v);
        return X::Path(vec![n.clone()], if *k == 0 { if !n.starts_with("al_") && r.one_in(6) { Args::Call(vec![]) } else { Args::None } } else { Args::Call((0..*k).map(|_| expr(r, s, d.saturating_sub(1))).collect()) });
    }
    X::Str(word(r))
}
/// the same expression with nested sequences and choices flattened and optional forms spelled one way
pub fn canon(x: &X) -> X {
    let b = |a: &X| Box::new(canon(a));
    match x {
        X::Seq(v) => {
            let mut o: Vec<(char, X)> = vec![];
            for (i, (t, a)) in v.iter().enumerate() {
                let t = if i == 0 { '-' } else { *t };
                match canon(a) { X::Seq(w) => for (j, (u, c)) in w.into_iter().enumerate() { o.push((if j == 0 { t } else { u }, c)) }, c => o.push((t, c)) }
            }
            X::Seq(o)
        }
        X::Choice(v) => { let mut o = vec![]; for a in v { match canon(a) { X::Choice(w) => o.extend(w), c => o.push(c) } } X::Choice(o) }
        X::Opt(a) => X::Opt(b(a)),
        X::Pos(a) => X::Pos(b(a)),
        X::Neg(a) => X::Neg(b(a)),
        X::Sep(a, _) => canon(a),
        X::Rep(l, h, a, t) => X::Rep(*l, *h, b(a), *t),
        X::Path(p, Args::Call(v)) if v.is_empty() => X::Path(p.clone(), Args::None),
        X::Path(p, Args::Call(v)) => X::Path(p.clone(), Args::Call(v.iter().map(canon).collect())),
        X::Path(p, Args::Slice(a, b)) => X::Path(p.clone(), Args::Slice(Some(a.unwrap_or(0)), *b)),
        x => x.clone(),
    }
}
pub fn lit_char(r: &mut Rng, c: char, q: char) -> String {
    let n = c as u32;
    let mut v = vec![];
    if c != '\\' && c != q { v.push(c.to_string()); v.push(c.to_string()) }
    match c { '"' => v.push("\\\"".into()), '\\' => v.push("\\\\".into()), '\n' => v.push("\\n".into()), '\r' => v.push("\\r".into()), '\t' => v.push("\\t".into()), '\0' => v.push("\\0".into()), '\'' => v.push("\\'".into()), _ => {} }
    if n < 0x80 { v.push(format!("\\x{n:02x}")); v.push(format!("\\x{n:02X}")) }
    v.push(format!("\\u{{{n:x}}}"));
    v.push(format!("\\u{{{n:04X}}}"));
    v.push(format!("\\u{{{n:06x}}}"));
    r.pick(&v).clone()
}
pub fn lit(r: &mut Rng, s: &str) -> String { format!("\"{}\"", s.chars().map(|c| lit_char(r, c, '"')).collect::<String>()) }
pub fn text(r: &mut Rng, x: &X, prec: usize) -> String {
    let paren = |s: String, p: usize| if prec > p { format!("({s})") } else { s };
    let sp = |r: &mut Rng| *r.pick(&[" ", " ", "  ", "\n  ", " /* - */ ", "\t"]);
    let post = |r: &mut Rng, a: &X, op: String| { let p = if matches!(a, X::Rep(..) | X::Opt(_)) && r.one_in(2) { 3 } else { 4 }; let t = text(r, a, p); let s = format!("{t}{op}"); if prec > 3 { format!("({s})") } else { s } };
    let s = match x {
        X::Seq(v) => {
            let mut s = String::new();
            for (i, (t, a)) in v.iter().enumerate() {
                if i > 0 { s.push_str(sp(r)); s.push(*t); s.push_str(sp(r)) }
                // a last operand that is itself a sequence needs no parentheses in the source
                let p = if matches!(a, X::Seq(_)) && i + 1 == v.len() && r.one_in(2) { 1 } else { 2 };
                s.push_str(&text(r, a, p));
            }
            paren(s, 1)
        }
        X::Choice(v) => {
            let mut s = String::from(if r.one_in(5) && prec == 0 && !matches!(v[0], X::Seq(_)) { "| " } else { "" });
            for (i, a) in v.iter().enumerate() {
                if i > 0 { s.push_str(sp(r)); s.push('|'); s.push_str(sp(r)) }
                s.push_str(&text(r, a, 1));
            }
            paren(s, 0)
        }
        X::Pos(a) => { let t = text(r, a, 2); paren(format!("&{}{t}", sp(r)), 2) }
        X::Neg(a) => { let t = text(r, a, 2); paren(format!("!{t}"), 2) }
        X::Opt(a) => post(r, a, "?".into()),
        X::Rep(l, h, a, t) => {
            let t = if *t == '-' { String::new() } else { t.to_string() };
            let op = match (*l, *h) {
                (0, usize::MAX) => (*r.pick(&["*", "*", "{..}", "{0..}"])).to_string(),
                (1, usize::MAX) => (*r.pick(&["+", "+", "{1..}"])).to_string(),
                (l, usize::MAX) => format!("{{{l}..}}"),
                (l, h) if l == h => if r.one_in(3) { format!("{{{l}..{h}}}") } else { format!("{{{l}}}") },
                (0, h) => if r.one_in(3) { format!("{{0..{h}}}") } else { format!("{{..{h}}}") },
                (l, h) => format!("{{{l} .. {h}}}"),
            };
            post(r, a, format!("{t}{op}"))
        }
        X::Str(s) => if r.one_in(6) && !s.ends_with('\r') { let mut n = 0; while s.contains(&format!("\"{}", "#".repeat(n))) { n += 1 } if r.one_in(4) { n += 1 } format!("r{0}\"{s}\"{0}", "#".repeat(n)) } else { lit(r, s) },
        X::Ins(s) => format!("i{}", lit(r, s)),
        X::Range(a, b) => format!("'{}'..'{}'", chr(r, *a), chr(r, *b)),
        X::Sep(a, _) => text(r, a, prec),
        X::Path(p, a) => {
            let mut s = p.join("::");
            match a {
                Args::None => {}
                Args::Call(v) => { let t: Vec<String> = v.iter().map(|x| text(r, x, 0)).collect(); s.push_str(&format!("({}{})", t.join(", "), if r.one_in(5) && !v.is_empty() { "," } else { "" })) }
                Args::Slice(a, b) => { let f = |x: &Option<isize>| x.map_or(String::new(), |i| i.to_string()); s.push_str(&format!("[{}..{}]", f(a), f(b))) }
            }
            s
        }
    };
    if r.one_in(15) { format!("({s})") } else { s }
}
fn chr(r: &mut Rng, c: char) -> String { if c == '\'' && r.one_in(2) { "'".into() } else { lit_char(r, c, '\\') } }
