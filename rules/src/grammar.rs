//! An independent reader of pest3 grammars and an evaluator for them (PEG semantics).
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
#[derive(Clone, Debug)]
pub enum X {
    Str(String), Ins(String), Range(char, char), Path(Vec<String>, Args), Pos(Box<X>), Neg(Box<X>),
    Seq(Vec<(char, X)>), Choice(Vec<X>), Opt(Box<X>), Rep(usize, usize, Box<X>, char), Sep(Box<X>, char),
}
#[derive(Clone, Debug)]
pub enum Args { None, Call(Vec<X>), Slice(Option<isize>, Option<isize>) }
#[derive(Clone, Debug)]
pub struct Rule { pub name: String, pub args: Vec<String>, pub silent: bool, pub body: X }
#[derive(Clone, Debug, Default)]
pub struct Module { pub rules: Vec<Rule>, pub imports: Vec<(String, Import)> }
#[derive(Clone, Debug)]
pub enum Import { Pest(Vec<String>), File(usize) }

struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            let r = &self.s[self.i..];
            if r.first().map_or(false, |c| b" \t\r\n".contains(c)) { self.i += 1 }
            else if r.starts_with(b"//") { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 } }
            else if r.starts_with(b"/*") {
                let mut d = 0;
                loop { let r = &self.s[self.i..]; if r.starts_with(b"/*") { d += 1; self.i += 2 } else if r.starts_with(b"*/") { d -= 1; self.i += 2; if d == 0 { break } } else { self.i += 1 } }
            }
            else { return }
        }
    }
    fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false } }
    fn need(&mut self, t: &str) { assert!(self.eat(t), "expected {t:?} at {:?}", String::from_utf8_lossy(&self.s[self.i..])) }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') { self.i += 1 }
        (self.i > st).then(|| String::from_utf8(self.s[st..self.i].to_vec()).unwrap())
    }
    fn lit(&mut self, q: u8) -> String {
        // at the opening quote
        self.i += 1;
        let mut o = vec![];
        while self.s[self.i] != q || (q == b'\'' && o.is_empty()) {
            if self.s[self.i] != b'\\' { o.push(self.s[self.i]); self.i += 1; continue }
            let c = self.s[self.i + 1];
            self.i += 2;
            let mut put = |c: char| o.extend(c.to_string().bytes());
            match c {
                b'n' => put('\n'), b'r' => put('\r'), b't' => put('\t'), b'0' => put('\0'),
                b'x' => { let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap(); put(u8::from_str_radix(h, 16).unwrap() as char); self.i += 2 }
                b'u' => { let e = self.i + self.s[self.i..].iter().position(|c| *c == b'}').unwrap(); let h = std::str::from_utf8(&self.s[self.i + 1..e]).unwrap(); put(char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()); self.i = e + 1 }
                c => put(c as char),
            }
        }
        self.i += 1;
        String::from_utf8(o).unwrap()
    }
    fn int(&mut self) -> Option<isize> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i] == b'+') { self.i += 1 }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1 }
        if self.i == st { return None }
        Some(std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap())
    }
    fn node(&mut self) -> X {
        self.ws();
        match self.s[self.i] {
            b'(' => { self.i += 1; let e = self.expr(); self.need(")"); e }
            b'"' => X::Str(self.lit(b'"')),
            b'i' if self.s[self.i + 1] == b'"' => { self.i += 1; X::Ins(self.lit(b'"')) }
            b'r' if self.s[self.i + 1] == b'"' || self.s[self.i + 1] == b'#' => {
                let st = self.i + 1; let mut n = 0;
                while self.s[st + n] == b'#' { n += 1 }
                let close: Vec<u8> = std::iter::once(b'"').chain(std::iter::repeat(b'#').take(n)).collect();
                let b = st + n + 1; let mut e = b;
                while !self.s[e..].starts_with(&close) { e += 1 }
                self.i = e + close.len();
                X::Str(String::from_utf8(self.s[b..e].to_vec()).unwrap())
            }
            b'\'' => { let a = self.lit(b'\''); self.need(".."); self.ws(); let b = self.lit(b'\''); X::Range(a.chars().next().unwrap(), b.chars().next().unwrap()) }
            _ => {
                let mut p = vec![self.ident().unwrap_or_else(|| panic!("identifier at {:?}", String::from_utf8_lossy(&self.s[self.i..])))];
                while self.eat("::") { p.push(self.ident().unwrap()) }
                if self.eat("(") {
                    let mut v = vec![];
                    while !self.eat(")") { v.push(self.expr()); self.eat(","); }
                    X::Path(p, Args::Call(v))
                } else if self.eat("[") { let a = self.int(); self.need(".."); let b = self.int(); self.need("]"); X::Path(p, Args::Slice(a, b)) }
                else { X::Path(p, Args::None) }
            }
        }
    }
    fn term(&mut self) -> X {
        if self.eat("&") { return X::Pos(Box::new(self.term())) }
        if self.eat("!") { return X::Neg(Box::new(self.term())) }
        let mut e = self.node();
        loop {
            // an operator character right before a repetition or option is its trivia
            let save = self.i;
            let triv = if self.eat("~") { '~' } else if self.eat("^") { '^' } else { '-' };
            let b = |x: &X| Box::new(x.clone());
            if self.eat("?") { e = X::Opt(b(&e)) }
            else if self.eat("*") { e = X::Rep(0, usize::MAX, b(&e), triv) }
            else if self.eat("+") { e = X::Rep(1, usize::MAX, b(&e), triv) }
            else if self.eat("{") {
                let a = self.int();
                let (lo, hi) = if self.eat("..") { (a.unwrap_or(0) as usize, self.int().map_or(usize::MAX, |x| x as usize)) } else { (a.unwrap() as usize, a.unwrap() as usize) };
                self.need("}");
                e = X::Rep(lo, hi, b(&e), triv)
            } else { self.i = save; return e }
        }
    }
    fn seq(&mut self) -> X {
        let mut v = vec![('-', self.term())];
        loop {
            let op = if self.eat("~") { '~' } else if self.eat("^") { '^' } else if self.eat("-") { '-' } else { break };
            v.push((op, self.term()));
        }
        if v.len() == 1 { v.pop().unwrap().1 } else { X::Seq(v) }
    }
    fn expr(&mut self) -> X {
        self.eat("|");
        let mut v = vec![self.seq()];
        while self.eat("|") { v.push(self.seq()) }
        if v.len() == 1 { v.pop().unwrap() } else { X::Choice(v) }
    }
    fn rule_follows(&mut self) -> bool {
        let save = self.i;
        let ok = (self.eat("~") || self.eat("^") || self.ident().is_some()) && { if self.eat("(") { while !self.eat(")") { self.i += 1 } } self.eat("=") };
        self.i = save;
        ok
    }
}
pub struct World { pub mods: Vec<Module> }
impl World {
    pub fn new(text: &str, path: &str) -> World {
        let mut w = World { mods: vec![] };
        let mut cache = HashMap::new();
        w.load(text, &Path::new(env!("CARGO_MANIFEST_DIR")).join(path), &mut cache);
        w
    }
    fn load(&mut self, text: &str, file: &Path, cache: &mut HashMap<PathBuf, usize>) -> usize {
        let id = self.mods.len();
        self.mods.push(Module::default());
        let mut p = P { s: text.as_bytes(), i: 0 };
        let mut m = Module::default();
        loop {
            p.ws();
            if p.i >= p.s.len() { break }
            let save = p.i;
            if !p.rule_follows() && p.ident().as_deref() == Some("use") {
                let mut path = vec![p.ident().unwrap()];
                while p.eat("::") { path.push(p.ident().unwrap()) }
                let mut alias = path.last().unwrap().clone();
                let s2 = p.i;
                if !p.rule_follows() && p.ident().as_deref() == Some("as") { alias = p.ident().unwrap() } else { p.i = s2 }
                let imp = if path[0] == "pest" { Import::Pest(path) } else {
                    let mut f = file.parent().unwrap().to_path_buf();
                    for c in &path { if c == "super" { f.pop(); } else { f.push(c) } }
                    f.set_extension("pest");
                    let t = std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("{f:?}: {e}"));
                    Import::File(match cache.get(&f) { Some(i) => *i, None => { let i = self.load(&t, &f, cache); cache.insert(f, i); i } })
                };
                m.imports.push((alias, imp));
                continue;
            }
            p.i = save;
            let name = if p.eat("~") { "~".to_string() } else if p.eat("^") { "^".into() } else { p.ident().unwrap() };
            let mut args = vec![];
            if p.eat("(") { while !p.eat(")") { args.push(p.ident().unwrap()); p.eat(","); } }
            p.need("=");
            p.ws();
            let silent = p.s[p.i] == b'_' && !p.s[p.i + 1].is_ascii_alphanumeric() && p.s[p.i + 1] != b'_';
            if silent { p.i += 1 }
            let body = if p.eat("{") { let e = p.expr(); p.need("}"); e } else {
                // an infix operator that starts the next rule (`~ = ..`) ends the body
                let e = p.body(); e
            };
            m.rules.push(Rule { name, args, silent, body });
        }
        self.mods[id] = m;
        id
    }
    pub fn find(&self, m: usize, n: &str) -> Option<&Rule> { self.mods[m].rules.iter().find(|r| r.name == n) }
    pub fn silent(&self, n: &str) -> bool { self.find(0, n).unwrap().silent }
    fn walk(&self, m: usize, x: &X, f: &mut dyn FnMut(&X)) {
        f(x);
        match x {
            X::Pos(a) | X::Neg(a) | X::Opt(a) | X::Rep(_, _, a, _) | X::Sep(a, _) => self.walk(m, a, f),
            X::Seq(v) => for (_, a) in v { self.walk(m, a, f) },
            X::Choice(v) => for a in v { self.walk(m, a, f) },
            X::Path(_, Args::Call(v)) => for a in v { self.walk(m, a, f) },
            _ => {}
        }
    }
    fn all(&self, f: &mut dyn FnMut(&X)) { for (i, m) in self.mods.iter().enumerate() { for r in &m.rules { self.walk(i, &r.body, f) } } }
    /// the expressions a rule can reach, with the trivia of their modules
    fn reach(&self, n: &str, f: &mut dyn FnMut(&X)) {
        let mut seen: Vec<(usize, String)> = vec![];
        let mut todo = vec![(0, n.to_string()), (0, "~".into()), (0, "^".into())];
        while let Some((m, n)) = todo.pop() {
            if seen.contains(&(m, n.clone())) { continue }
            seen.push((m, n.clone()));
            let Some(r) = self.find(m, &n) else { continue };
            let mut paths = vec![];
            self.walk(m, &r.body, &mut |x| { f(x); if let X::Path(p, _) = x { paths.push(p.clone()) } });
            for p in paths { if let Some((Tgt::Rule(m2), n2)) = self.resolve(m, &p) { todo.push((m2, n2)); if m2 != m { todo.push((m2, "~".into())); todo.push((m2, "^".into())) } } }
        }
    }
    pub fn alphabet(&self, n: &str) -> Vec<char> {
        let mut v: Vec<char> = vec![];
        self.reach(n, &mut |x| match x { X::Str(s) | X::Ins(s) => v.extend(s.chars()), X::Range(a, b) => v.extend([*a, *b]), _ => {} });
        if let Some(X::Ins(s)) = self.find(0, n).map(|r| &r.body) { v.extend(s.to_uppercase().chars()) }
        let mut o = vec![];
        for c in v { if !o.contains(&c) { o.push(c) } }
        o.truncate(6);
        if o.len() < 5 { o.push('z') }
        if o.len() < 3 { o.push('é') }
        o
    }
    pub fn words(&self, n: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        self.reach(n, &mut |x| if let X::Str(s) | X::Ins(s) = x { v.push(s.clone()); v.push(s.to_uppercase()) });
        let mut o = v.clone();
        for a in v.iter().take(12) { for b in v.iter().take(12) { o.push(format!("{a}{b}")); for c in v.iter().take(4) { o.push(format!("{a}{b}{c}")); o.push(format!("{a}{c}{b}{a}")) } } }
        // everything in order: long sequences
        let mut all = String::new();
        if let Some(r) = self.find(0, n) { self.walk(0, &r.body, &mut |x| if let X::Str(s) = x { all.push_str(s) }) }
        o.push(all);
        o
    }
    pub fn uses_stack(&self) -> bool { let mut u = false; self.all(&mut |x| if let X::Path(p, _) = x { if p.iter().any(|s| s == "stack") { u = true } }); u || self.mods[0].imports.iter().any(|i| matches!(&i.1, Import::Pest(p) if p.len() > 1 && p[1] == "stack")) }
    fn resolve(&self, m: usize, p: &[String]) -> Option<(Tgt, String)> {
        if p[0] == "pest" { return Some((Tgt::Pest, p[1..].join("::"))) }
        if p.len() == 1 && self.find(m, &p[0]).is_some() { return Some((Tgt::Rule(m), p[0].clone())) }
        let (_, i) = self.mods[m].imports.iter().find(|i| i.0 == p[0])?;
        match i {
            Import::Pest(q) => Some((Tgt::Pest, q[1..].iter().chain(&p[1..]).cloned().collect::<Vec<_>>().join("::"))),
            Import::File(k) => { if p.len() == 1 { None } else { self.resolve(*k, &p[1..]) } }
        }
    }
    fn prefix(&self, m: usize, p: &[String]) -> Vec<String> {
        if p.len() <= 1 || p[0] == "pest" { return vec![] }
        let Some((_, Import::File(k))) = self.mods[m].imports.iter().find(|i| i.0 == p[0]) else { return vec![] };
        let mut v = vec![p[0].clone()];
        v.extend(self.prefix(*k, &p[1..]));
        v
    }
}
impl<'a> P<'a> {
    /// expression without braces: stops before what begins the next rule
    fn body(&mut self) -> X {
        self.eat("|");
        let mut ch = vec![];
        loop {
            let mut v = vec![('-', self.term_b())];
            loop {
                if self.rule_follows() { break }
                let op = if self.eat("~") { '~' } else if self.eat("^") { '^' } else if self.eat("-") { '-' } else { break };
                v.push((op, self.term_b()));
            }
            ch.push(if v.len() == 1 { v.pop().unwrap().1 } else { X::Seq(v) });
            if self.rule_follows() || !self.eat("|") { break }
        }
        if ch.len() == 1 { ch.pop().unwrap() } else { X::Choice(ch) }
    }
    fn term_b(&mut self) -> X { self.term() }
}
#[derive(PartialEq)]
pub enum Tgt { Pest, Rule(usize) }

#[derive(Clone, Debug, PartialEq)]
pub struct PT { pub rule: String, pub start: usize, pub end: usize, pub children: Vec<PT> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Attempts { pub pos: usize, pub map: BTreeMap<Option<String>, (Vec<String>, Vec<String>, usize)> }
pub struct Trk { pos: usize, positive: bool, stack: Vec<(String, usize, bool)>, map: BTreeMap<Option<String>, (Vec<String>, Vec<String>, usize)> }
impl Trk {
    pub fn out(&self) -> Attempts { Attempts { pos: self.pos, map: self.map.clone() } }
    fn prepare(&mut self, pos: usize) -> bool { if pos < self.pos { return false } if pos > self.pos { self.pos = pos; self.map.clear() } true }
    fn entry(&mut self, pos: usize) -> &mut (Vec<String>, Vec<String>, usize) { let up = self.stack.iter().rev().find(|f| f.1 != pos).map(|f| f.0.clone()); self.map.entry(up).or_default() }
    fn special(&mut self, pos: usize) { if self.prepare(pos) { self.entry(pos).2 += 1 } }
    fn enter(&mut self, r: String, pos: usize) { if let Some(l) = self.stack.last_mut() { l.2 = true } self.stack.push((r, pos, false)) }
    fn leave(&mut self, ok: bool) {
        let (r, pos, ch) = self.stack.pop().unwrap();
        if !ch && self.prepare(pos) && ok != self.positive { let p = self.positive; let e = self.entry(pos); let v = if p { &mut e.0 } else { &mut e.1 }; if v.last() != Some(&r) { v.push(r) } }
    }
}
/// bindings of parameters: expression, its module, the module path it is named by, its own bindings
#[derive(Clone)]
struct Ctx { m: usize, pre: Vec<String>, env: std::rc::Rc<Vec<(String, X, Ctx)>> }
pub struct M<'w> { w: &'w World, input: &'static str, pub stack: Vec<(usize, usize)>, pub trk: Trk, fuel: usize }
pub type Res = Result<Option<(usize, Vec<PT>)>, ()>;
fn abs(i: isize, n: usize) -> Option<usize> { if i >= 0 { (i as usize <= n).then_some(i as usize) } else { n.checked_sub(i.unsigned_abs()) } }
impl<'w> M<'w> {
    pub fn new(w: &'w World, input: &'static str, st: &[(usize, usize)]) -> Self { M { w, input, stack: st.to_vec(), trk: Trk { pos: 0, positive: true, stack: vec![], map: BTreeMap::new() }, fuel: 20000 } }
    pub fn rule(&mut self, n: &str, pos: usize) -> Res { self.call(&Ctx { m: 0, pre: vec![], env: Default::default() }, &[n.to_string()], &Args::None, pos) }
    fn text(&mut self, pos: usize, s: &str) -> Option<usize> { self.input[pos..].starts_with(s).then(|| pos + s.len()) }
    fn spans(&mut self, pos: usize, v: &[(usize, usize)]) -> Option<usize> { let mut p = pos; for s in v { let t = &self.input[s.0..s.1]; p = self.text(p, t)? } Some(p) }
    fn call(&mut self, c: &Ctx, path: &[String], args: &Args, pos: usize) -> Res {
        if path.len() == 1 { if let Some((_, x, c2)) = c.env.iter().find(|b| b.0 == path[0]).cloned() { return self.ev(&c2, &x, pos) } }
        let (t, n) = self.w.resolve(c.m, path).unwrap_or_else(|| panic!("unresolved {path:?}"));
        let Tgt::Rule(m) = t else { return self.builtin(c, &n, args, pos) };
        let r = self.w.find(m, &n).unwrap().clone();
        let mut pre = c.pre.clone();
        pre.extend(self.w.prefix(c.m, path));
        let env = match args { Args::Call(v) => r.args.iter().cloned().zip(v.iter().cloned()).map(|(a, x)| (a, x, c.clone())).collect(), _ => vec![] };
        // a silent rule with parameters is inlined: it is no rule of its own
        if r.silent && !r.args.is_empty() { return self.ev(&Ctx { m, pre, env: env.into() }, &r.body, pos) }
        let name = pre.iter().rev().fold(n.clone(), |a, p| format!("{p}({a})"));
        self.trk.enter(name.clone(), pos);
        let x = self.ev(&Ctx { m, pre, env: env.into() }, &r.body, pos)?;
        self.trk.leave(x.is_some());
        Ok(x.map(|(e, ch)| (e, if r.silent { vec![] } else { vec![PT { rule: name, start: pos, end: e, children: ch }] })))
    }
    fn builtin(&mut self, c: &Ctx, n: &str, args: &Args, pos: usize) -> Res {
        let rest = &self.input[pos..];
        let one = |f: fn(char) -> bool| rest.chars().next().filter(|c| f(*c)).map(|c| pos + c.len_utf8());
        let s = self.stack.clone();
        let r = match n {
            "any" => one(|_| true), "soi" => (pos == 0).then_some(pos), "eoi" => rest.is_empty().then_some(pos),
            "ascii_digit" => one(|c| c.is_ascii_digit()), "ascii_nonzero_digit" => one(|c| ('1'..='9').contains(&c)), "ascii_bin_digit" => one(|c| c == '0' || c == '1'),
            "ascii_oct_digit" => one(|c| ('0'..='7').contains(&c)), "ascii_hex_digit" => one(|c| c.is_ascii_hexdigit()), "ascii_alpha_lower" => one(|c| c.is_ascii_lowercase()),
            "ascii_alpha_upper" => one(|c| c.is_ascii_uppercase()), "ascii_alpha" => one(|c| c.is_ascii_alphabetic()), "ascii_alphanumeric" => one(|c| c.is_ascii_alphanumeric()), "ascii" => one(|c| c.is_ascii()),
            "newline" => if rest.starts_with("\r\n") { Some(pos + 2) } else if rest.starts_with('\n') || rest.starts_with('\r') { Some(pos + 1) } else { None },
            "unicode::alphabetic" => one(|c| c.is_alphabetic()), "unicode::uppercase" => one(|c| c.is_uppercase()), "unicode::white_space" => one(|c| c.is_whitespace()),
            "stack::push" => {
                let Args::Call(v) = args else { panic!() };
                let x = self.ev(c, &v[0], pos)?;
                if let Some((e, _)) = &x { self.stack.push((pos, *e)) }
                return Ok(x);
            }
            "stack::peek_all" | "stack::pop_all" => { let v: Vec<_> = s.iter().rev().copied().collect(); let r = self.spans(pos, &v); if r.is_some() && n == "stack::pop_all" { self.stack.clear() } r }
            "stack::peek" if matches!(args, Args::Slice(..)) => {
                let Args::Slice(a, b) = args else { panic!() };
                match (abs(a.unwrap_or(0), s.len()), b.map_or(Some(s.len()), |b| abs(b, s.len()))) {
                    (Some(a), Some(b)) => { let v = if a < b { s[a..b].to_vec() } else { vec![] }; self.spans(pos, &v) }
                    _ => { self.trk.special(pos); None }
                }
            }
            "stack::peek" | "stack::pop" | "stack::drop" => match s.last() {
                None => { self.trk.special(pos); None }
                Some(t) => { if n != "stack::peek" { self.stack.pop(); } if n == "stack::drop" { Some(pos) } else { self.spans(pos, &[*t]) } }
            },
            n => panic!("builtin {n}"),
        };
        Ok(r.map(|e| (e, vec![])))
    }
    fn trivia(&mut self, c: &Ctx, t: char, pos: usize) -> Result<Option<usize>, ()> {
        if t == '-' { return Ok(Some(pos)) }
        let Some(r) = self.w.find(c.m, &t.to_string()).cloned() else { return Ok(Some(pos)) };
        Ok(self.ev(&Ctx { env: Default::default(), ..c.clone() }, &r.body, pos)?.map(|x| x.0))
    }
    fn ev(&mut self, c: &Ctx, x: &X, pos: usize) -> Res {
        if self.fuel == 0 { return Err(()) }
        self.fuel -= 1;
        let none = |p: Option<usize>| p.map(|e| (e, vec![]));
        Ok(match x {
            X::Str(s) => none(self.text(pos, s)),
            X::Ins(s) => { let r = &self.input.as_bytes()[pos..]; none((r.len() >= s.len() && r[..s.len()].eq_ignore_ascii_case(s.as_bytes())).then(|| pos + s.len())) }
            X::Range(a, b) => none(self.input[pos..].chars().next().filter(|c| a <= c && c <= b).map(|c| pos + c.len_utf8())),
            X::Path(p, a) => return self.call(c, p, a, pos),
            X::Sep(a, _) => return self.ev(c, a, pos),
            X::Pos(a) | X::Neg(a) => {
                let (st, pol) = (self.stack.clone(), self.trk.positive);
                let want = matches!(x, X::Pos(_));
                self.trk.positive = want;
                let r = self.ev(c, a, pos)?.is_some();
                self.trk.positive = pol; self.stack = st;
                none((r == want).then_some(pos))
            }
            X::Opt(a) => { let st = self.stack.clone(); match self.ev(c, a, pos)? { Some(r) => Some(r), None => { self.stack = st; Some((pos, vec![])) } } }
            X::Choice(v) => {
                for a in v { let st = self.stack.clone(); if let Some(r) = self.ev(c, a, pos)? { return Ok(Some(r)) } self.stack = st }
                None
            }
            X::Seq(v) => {
                let (mut p, mut out) = (pos, vec![]);
                for (i, (t, a)) in v.iter().enumerate() {
                    if i > 0 { match self.trivia(c, *t, p)? { Some(q) => p = q, None => return Ok(None) } }
                    match self.ev(c, a, p)? { Some((q, o)) => { p = q; out.extend(o) } None => return Ok(None) }
                }
                Some((p, out))
            }
            X::Rep(lo, hi, a, t) => {
                let (mut p, mut out, mut n) = (pos, vec![], 0);
                while n < *hi {
                    let st = self.stack.clone();
                    let q = if n == 0 { Some(p) } else { self.trivia(c, *t, p)? };
                    let r = match q { Some(q) => self.ev(c, a, q)?, None => None };
                    match r { Some((q, o)) => { p = q; out.extend(o); n += 1 } None => { self.stack = st; break } }
                }
                if n < *lo { None } else { Some((p, out)) }
            }
        })
    }
}
