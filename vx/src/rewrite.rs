//! Mechanical rewriting of a function body into the Verus subset.
//! Every rewrite is semantics preserving; the list is printed in /verif/DESIGN.md.
use crate::index::*;
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cfg {
    /// "name" / "Type::name" of functions that have a contract in the skeleton.
    pub contracted: HashSet<String>,
    /// provided trait methods inlined where called on self
    pub inline: HashSet<String>,
    /// method renames: (name, nargs) -> new name
    pub renames: HashMap<(String, usize), String>,
    /// function path renames (after normalisation, as printed without spaces)
    pub paths: HashMap<String, String>,
    /// module names stripped from paths
    pub modules: HashSet<String>,
    /// item renames (single ident)
    pub idents: HashMap<String, String>,
}

pub struct Rw<'a> {
    pub krate: &'a Crate,
    pub cfg: &'a Cfg,
    pub self_ty: Option<String>,
    pub refs: HashSet<String>,
    pub issues: Vec<String>,
    pub inlined: Vec<String>,
    pub fresh: usize,
    pub outs: usize,
    pub stack: Vec<String>,
    /// its deliberate panics (not `unreachable!`) are allowed: it gives no result then
    pub halts: bool,
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn is_fn_bound(b: &TypeParamBound) -> Option<Path> {
    if let TypeParamBound::Trait(t) = b {
        let n = last_seg(&t.path);
        if n == "FnOnce" || n == "FnMut" || n == "Fn" {
            return Some(t.path.clone());
        }
    }
    None
}

/// Parameters of closure type: name -> bound path
pub fn fn_params(sig: &Signature) -> HashMap<String, Path> {
    let mut generic: HashMap<String, Path> = HashMap::new();
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            for b in &t.bounds {
                if let Some(p) = is_fn_bound(b) {
                    generic.insert(t.ident.to_string(), p);
                }
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                for b in &t.bounds {
                    if let Some(pp) = is_fn_bound(b) {
                        generic.insert(ty_name(&t.bounded_ty), pp);
                    }
                }
            }
        }
    }
    let mut res = HashMap::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            let Pat::Ident(pi) = &*t.pat else { continue };
            let mut ty = &*t.ty;
            while let Type::Reference(r) = ty {
                ty = &r.elem;
            }
            match ty {
                Type::ImplTrait(it) => {
                    for b in &it.bounds {
                        if let Some(p) = is_fn_bound(b) {
                            res.insert(pi.ident.to_string(), p);
                        }
                    }
                }
                Type::Path(p) => {
                    if let Some(b) = generic.get(&last_seg(&p.path)) {
                        if p.path.segments.len() == 1 {
                            res.insert(pi.ident.to_string(), b.clone());
                        }
                    }
                }
                _ => {}
            }
        }
    }
    res
}

fn ret_kind(t: &ReturnType) -> Kind {
    match t {
        ReturnType::Type(_, t) => match &**t {
            Type::Path(p) => match last_seg(&p.path).as_str() {
                "Option" => Kind::Opt,
                "Result" => Kind::Res,
                _ => Kind::Other,
            },
            _ => Kind::Other,
        },
        _ => Kind::Other,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
    Other,
}

fn bound_ret(p: &Path) -> Kind {
    if let PathArguments::Parenthesized(pa) = &p.segments.last().unwrap().arguments {
        return ret_kind(&pa.output);
    }
    Kind::Other
}

struct HasJump(bool);
impl<'ast> Visit<'ast> for HasJump {
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
}
pub fn has_jump_e(e: &Expr) -> bool {
    let mut h = HasJump(false);
    h.visit_expr(e);
    h.0
}
fn has_jump_b(b: &Block) -> bool {
    let mut h = HasJump(false);
    h.visit_block(b);
    h.0
}
fn has_jump_s(s: &Stmt) -> bool {
    let mut h = HasJump(false);
    h.visit_stmt(s);
    h.0
}

/// Does control never leave the end of this block / expression?
fn diverges_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges_b(&b.block),
        Expr::Unsafe(b) => diverges_b(&b.block),
        Expr::If(i) => {
            diverges_b(&i.then_branch) && i.else_branch.as_ref().map_or(false, |e| diverges_e(&e.1))
        }
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_e(&a.body)),
        Expr::Paren(p) => diverges_e(&p.expr),
        _ => false,
    }
}
fn diverges_b(b: &Block) -> bool {
    b.stmts.iter().any(|s| match s {
        Stmt::Expr(e, _) => diverges_e(e),
        Stmt::Local(l) => l.init.as_ref().map_or(false, |i| diverges_e(&i.expr)),
        _ => false,
    })
}

fn blk(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn eblk(stmts: Vec<Stmt>) -> Expr {
    if stmts.len() == 1 {
        if let Stmt::Expr(e, None) = &stmts[0] {
            return e.clone();
        }
    }
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(stmts) })
}
fn as_stmts(e: Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts,
        e => vec![Stmt::Expr(e, None)],
    }
}

/// Rewrites the body of a closure/function with `?`/`return` (targeting that body) into a
/// jump-free expression with the same value.
pub fn cps(stmts: &[Stmt], kind: Kind) -> std::result::Result<Expr, String> {
    if !stmts.iter().any(has_jump_s) {
        return Ok(eblk(stmts.to_vec()));
    }
    let (s, rest) = (&stmts[0], &stmts[1..]);
    if !has_jump_s(s) {
        let tail = cps(rest, kind)?;
        let mut v = vec![s.clone()];
        match tail {
            Expr::Block(b) if b.label.is_none() => v.extend(b.block.stmts),
            e => v.push(Stmt::Expr(e, None)),
        }
        return Ok(eblk(v));
    }
    match s {
        Stmt::Local(l) => {
            let init = l.init.as_ref().unwrap();
            if let Some((_, els)) = &init.diverge {
                if has_jump_e(&init.expr) {
                    return Err("let-else with jump in scrutinee".into());
                }
                let pat = &l.pat;
                let e = &init.expr;
                let k = cps(rest, kind)?;
                let d = cps(&as_stmts((**els).clone()), kind)?;
                return Ok(parse_quote!(match #e { #pat => { #k } _ => { #d } }));
            }
            match strip(&init.expr) {
                Expr::Try(t) if !has_jump_e(&t.expr) => {
                    let pat = &l.pat;
                    let mut st: Vec<Stmt> = vec![parse_quote!(let #pat = __vx_q;)];
                    st.extend(as_stmts(cps(rest, kind)?));
                    return Ok(try_match(&t.expr, blk(st), kind)?);
                }
                Expr::Match(m) if !has_jump_e(&m.expr) => {
                    return cps_match(m, rest, kind, Some(&l.pat));
                }
                Expr::If(i) if !has_jump_e(&i.cond) => {
                    return cps_if(i, rest, kind, Some(&l.pat));
                }
                _ => {}
            }
            Err("unsupported jump in let".into())
        }
        Stmt::Expr(e, semi) => {
            let e = strip(e);
            let last = rest.is_empty();
            match e {
                Expr::Return(r) => {
                    let v: Expr = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()));
                    return cps(&[Stmt::Expr(v, None)], kind);
                }
                Expr::Try(t) if !has_jump_e(&t.expr) => {
                    let st = if last && semi.is_none() {
                        vec![parse_quote!(__vx_q)]
                    } else {
                        as_stmts(cps(rest, kind)?)
                    };
                    return Ok(try_match(&t.expr, blk(st), kind)?);
                }
                Expr::Assign(a) if !has_jump_e(&a.left) => {
                    if let Expr::Try(t) = strip(&a.right) {
                        if !has_jump_e(&t.expr) {
                            let left = &a.left;
                            let mut st: Vec<Stmt> = vec![parse_quote!(#left = __vx_q;)];
                            st.extend(as_stmts(cps(rest, kind)?));
                            return Ok(try_match(&t.expr, blk(st), kind)?);
                        }
                    }
                    Err("unsupported jump in assignment".into())
                }
                Expr::Match(m) if !has_jump_e(&m.expr) => {
                    if last && semi.is_none() {
                        let mut m = m.clone();
                        for a in &mut m.arms {
                            let b = cps(&as_stmts((*a.body).clone()), kind)?;
                            a.body = Box::new(parse_quote!({ #b }));
                        }
                        return Ok(Expr::Match(m));
                    }
                    cps_match(m, rest, kind, None)
                }
                Expr::If(i) if !has_jump_e(&i.cond) => {
                    if last && semi.is_none() && i.else_branch.is_some() {
                        let mut i = i.clone();
                        let t = cps(&i.then_branch.stmts, kind)?;
                        i.then_branch = blk(as_stmts(t));
                        let (tk, e) = i.else_branch.take().unwrap();
                        let e = cps(&as_stmts(*e), kind)?;
                        i.else_branch = Some((tk, Box::new(parse_quote!({ #e }))));
                        return Ok(Expr::If(i));
                    }
                    cps_if(i, rest, kind, None)
                }
                Expr::Block(b) if b.label.is_none() && last && semi.is_none() => {
                    cps(&b.block.stmts, kind)
                }
                Expr::Call(c) if last && semi.is_none() && c.args.len() == 1 => {
                    // Some(x?) / Ok(x?)
                    if let Expr::Try(t) = strip(&c.args[0]) {
                        if !has_jump_e(&t.expr) && !has_jump_e(&c.func) {
                            let f = &c.func;
                            return Ok(try_match(&t.expr, parse_quote!({ #f(__vx_q) }), kind)?);
                        }
                    }
                    Err("unsupported jump in call".into())
                }
                _ => Err("unsupported jump".into()),
            }
        }
        _ => Err("unsupported statement".into()),
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn try_match(e: &Expr, body: Block, kind: Kind) -> std::result::Result<Expr, String> {
    Ok(match kind {
        Kind::Opt => parse_quote!(match #e { Some(__vx_q) => #body None => { None } }),
        Kind::Res => parse_quote!(match #e { Ok(__vx_q) => #body Err(__vx_e) => { Err(__vx_e) } }),
        Kind::Other => return Err("`?` in a body of unknown kind".into()),
    })
}
/// match statement/let whose arms partly jump; at most one arm continues.
fn cps_match(m: &ExprMatch, rest: &[Stmt], kind: Kind, pat: Option<&Pat>) -> std::result::Result<Expr, String> {
    let mut m = m.clone();
    for a in &mut m.arms {
        let body = (*a.body).clone();
        let b = if diverges_e(&body) {
            cps(&as_stmts(body), kind)?
        } else {
            let mut st: Vec<Stmt>;
            if has_jump_e(&body) {
                // straight-line continuation through the arm
                st = as_stmts(body);
                if let Some(p) = pat {
                    match st.pop() {
                        Some(Stmt::Expr(e, None)) => st.push(parse_quote!(let #p = #e;)),
                        _ => return Err("jump in match arm".into()),
                    }
                } else if let Some(Stmt::Expr(e, None)) = st.pop() {
                    st.push(Stmt::Expr(e, Some(Default::default())));
                }
            } else {
                st = match pat {
                    Some(p) => vec![parse_quote!(let #p = #body;)],
                    None => vec![Stmt::Expr(body, Some(Default::default()))],
                };
            }
            st.extend(rest.iter().cloned());
            cps(&st, kind)?
        };
        a.body = Box::new(parse_quote!({ #b }));
        a.comma = None;
    }
    Ok(Expr::Match(m))
}
fn cps_if(i: &ExprIf, rest: &[Stmt], kind: Kind, pat: Option<&Pat>) -> std::result::Result<Expr, String> {
    let branch = |st: Vec<Stmt>| -> std::result::Result<Expr, String> {
        if diverges_b(&blk(st.clone())) {
            return cps(&st, kind);
        }
        let mut st = st;
        if let Some(p) = pat {
            match st.pop() {
                Some(Stmt::Expr(e, None)) => st.push(parse_quote!(let #p = #e;)),
                _ => return Err("jump in if branch".into()),
            }
        } else if let Some(Stmt::Expr(e, None)) = st.last().cloned() {
            st.pop();
            st.push(Stmt::Expr(e, Some(Default::default())));
        }
        st.extend(rest.iter().cloned());
        cps(&st, kind)
    };
    let mut i = i.clone();
    let t = branch(i.then_branch.stmts.clone())?;
    i.then_branch = blk(as_stmts(t));
    let els = match i.else_branch.take() {
        Some((_, e)) => as_stmts(*e),
        None => vec![],
    };
    let e = branch(els)?;
    i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #e }))));
    Ok(Expr::If(i))
}

struct Binders(Vec<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}
use syn::visit;

/// Capture-avoiding substitution in a callee body.
struct Subst {
    map: HashMap<String, Expr>,
    rename: HashMap<String, String>,
    self_ty: Option<Path>,
    self_recv_ref: Option<Expr>,
    consts: HashMap<String, Expr>,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some(x) = self.consts.get(&n) {
                    *e = x.clone();
                    return;
                }
                if let Some(x) = self.rename.get(&n) {
                    p.path.segments[0].ident = ident(x);
                    return;
                }
                if n == "self" {
                    if let Some(x) = &self.self_recv_ref {
                        *e = x.clone();
                    } else if let Some(x) = self.map.get("self") {
                        *e = x.clone();
                    }
                    return;
                }
                if let Some(x) = self.map.get(&n) {
                    *e = x.clone();
                    return;
                }
            }
        }
        match e {
            Expr::Field(f) => {
                if is_self(&f.base) {
                    if let Some(x) = self.map.get("self") {
                        *f.base = x.clone();
                        return;
                    }
                }
            }
            Expr::MethodCall(m) => {
                if is_self(&m.receiver) {
                    if let Some(x) = self.map.get("self") {
                        *m.receiver = x.clone();
                    }
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    if let Some(t) = &mut m.turbofish {
                        self.visit_angle_bracketed_generic_arguments_mut(t);
                    }
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is_self(&u.expr) => {
                if let Some(x) = self.map.get("self") {
                    let x = x.clone();
                    // receiver held by value -> the place itself
                    if self.self_recv_ref.is_some() && !matches!(self.self_recv_ref, Some(Expr::Path(_))) {
                        *e = x;
                    } else {
                        *u.expr = x;
                    }
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(x) = self.rename.get(&p.ident.to_string()) {
            p.ident = ident(x);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(s) = &self.self_ty {
            if p.segments.first().map_or(false, |x| x.ident == "Self") {
                let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                let mut q = s.clone();
                for r in rest {
                    q.segments.push(r);
                }
                *p = q;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}
/// A closure whose body contains an assignment.
fn assigns(e: &Expr) -> bool {
    struct A(bool);
    impl<'ast> Visit<'ast> for A {
        fn visit_expr_assign(&mut self, _: &'ast ExprAssign) {
            self.0 = true;
        }
    }
    let mut a = A(false);
    if let Expr::Closure(c) = strip(e) {
        a.visit_expr(&c.body);
    }
    a.0
}
fn is_self(e: &Expr) -> bool {
    matches!(strip(e), Expr::Path(p) if p.qself.is_none() && p.path.is_ident("self"))
}
fn simple_ident(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

/// in a specification, strings are compared by their characters
struct StrViews;
impl VisitMut for StrViews {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Binary(b) = e else { return };
        if !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) { return }
        let is = |e: &Expr| matches!(strip(e), Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
        if !is(&b.left) && !is(&b.right) { return }
        let (l, r, eq) = (&b.left, &b.right, matches!(b.op, BinOp::Eq(_)));
        *e = if eq { parse_quote!(vx_chars_of(#l) == vx_chars_of(#r)) } else { parse_quote!(vx_chars_of(#l) != vx_chars_of(#r)) };
    }
}
/// A closure with `?` whose last expression says whether it gives a result or an option, without the jumps.
fn jumpless(c: &ExprClosure) -> Option<ExprClosure> {
    let st = as_stmts((*c.body).clone());
    let Some(Stmt::Expr(t, None)) = st.last() else { return None };
    let Expr::Call(k) = strip(t) else { return None };
    let Expr::Path(p) = strip(&k.func) else { return None };
    let kind = match last_seg(&p.path).as_str() { "Ok" | "Err" => Kind::Res, "Some" => Kind::Opt, _ => return None };
    let mut c = c.clone();
    c.body = Box::new(cps(&st, kind).ok()?);
    Some(c)
}
/// `R.map_primary(P).map_infix(I).parse(pairs)`: operands and operators in the order in which `P` and `I` take them.
struct Pratt(usize);
impl VisitMut for Pratt {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = &*e else { return };
        if m.method != "parse" || m.args.len() != 1 { return }
        let Expr::MethodCall(i) = strip(&m.receiver) else { return };
        if i.method != "map_infix" || i.args.len() != 1 { return }
        let Expr::MethodCall(p) = strip(&i.receiver) else { return };
        if p.method != "map_primary" || p.args.len() != 1 { return }
        let (r, pairs) = (&p.receiver, &m.args[0]);
        if simple_ident(r).is_none() { return }
        let app = |f: &Expr, args: &[Ident]| -> Option<Expr> {
            match strip(f) {
                Expr::Closure(c) if c.inputs.len() == args.len() && !has_jump_e(&c.body) => {
                    let b = &c.body;
                    let l = c.inputs.iter().zip(args).map(|(p, a)| { let p = match p { Pat::Type(t) => &*t.pat, p => p }; quote!(let #p = #a;) });
                    Some(parse_quote!({ #(#l)* #b }))
                }
                Expr::Path(f) => Some(parse_quote!(#f(#(#args),*))),
                _ => None,
            }
        };
        let k = self.0;
        self.0 += 1;
        let [v, a, b, q] = ["v", "a", "b", "ops"].map(|n| ident(&format!("__p{n}{k}")));
        let (Some(x), Some(y)) = (app(&p.args[0], &[v.clone()]), app(&i.args[0], &[a.clone(), v.clone(), b.clone()])) else { return };
        *e = parse_quote!({
            let mut #q = Vec::new();
            for #v in #r.vx_rpn(#pairs) {
                if #r.vx_is_infix(&#v) { let #b = #q.pop().unwrap(); let #a = #q.pop().unwrap(); #q.push(#y); } else { #q.push(#x); }
            }
            #q.pop().unwrap()
        });
    }
}
/// `let f = |..| body;` whose every use is a call: the calls become the body, with the parameters bound
/// to the arguments. Left alone where a name the closure captures is bound again further down.
fn local_closures(b: &mut Block) {
    struct Uses<'x> { n: &'x str, calls: usize, all: usize, binds: HashSet<String> }
    impl<'x, 'ast> Visit<'ast> for Uses<'x> {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.binds.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) }
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if simple_ident(&c.func).as_deref() == Some(self.n) { self.calls += 1 }
            visit::visit_expr_call(self, c)
        }
        fn visit_expr_path(&mut self, p: &'ast ExprPath) { if p.path.is_ident(self.n) { self.all += 1 } }
    }
    struct Names(HashSet<String>);
    impl<'ast> Visit<'ast> for Names {
        fn visit_expr_path(&mut self, p: &'ast ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } }
        fn visit_pat_ident(&mut self, _: &'ast PatIdent) {}
    }
    struct Sub<'x> { n: &'x str, c: &'x ExprClosure }
    impl<'x> VisitMut for Sub<'x> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::Call(c) = e else { return };
            if simple_ident(&c.func).as_deref() != Some(self.n) { return }
            let mut st: Vec<Stmt> = vec![];
            for (p, a) in self.c.inputs.iter().zip(&c.args) {
                let name = match p { Pat::Type(t) => &*t.pat, p => p };
                if let (Pat::Ident(i), Expr::Reference(r)) = (name, strip(a)) {
                    if r.mutability.is_some() && simple_ident(&r.expr).is_some_and(|x| i.ident == x.as_str()) { continue }
                }
                if let (Pat::Ident(i), Some(x)) = (name, simple_ident(a)) { if i.ident == x.as_str() && !matches!(p, Pat::Type(t) if !matches!(&*t.ty, Type::Reference(_))) { continue } }
                let p = match p { Pat::Type(t) => { let (p, t) = (&t.pat, &t.ty); quote!(#p: #t) } p => quote!(#p) };
                st.push(parse_quote!(let #p = #a;));
            }
            let body = &self.c.body;
            st.push(Stmt::Expr((**body).clone(), None));
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(st) });
        }
    }
    // a function among the statements, likewise
    for s in b.stmts.iter_mut() {
        if let Stmt::Item(Item::Fn(f)) = s {
            if f.sig.generics.type_params().next().is_some() || has_jump_e(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: (*f.block).clone() })) { continue }
            let (n, body) = (&f.sig.ident, &f.block);
            let mut ps: Vec<proc_macro2::TokenStream> = vec![];
            for a in &f.sig.inputs { if let FnArg::Typed(t) = a { ps.push(t.pat.to_token_stream()) } }
            *s = parse_quote!(let #n = |#(#ps),*| #body;);
        }
    }
    let mut k = 0;
    while k < b.stmts.len() {
        let found = match &b.stmts[k] {
            Stmt::Local(Local { pat: Pat::Ident(i), init: Some(x), .. }) => match strip(&x.expr) {
                Expr::Closure(c) if c.capture.is_none() && !has_jump_e(&c.body) => Some((i.ident.to_string(), c.clone())),
                Expr::Closure(c) if c.capture.is_none() => jumpless(c).map(|c| (i.ident.to_string(), c)),
                _ => None,
            },
            _ => None,
        };
        k += 1;
        let Some((n, c)) = found else { continue };
        let mut u = Uses { n: &n, calls: 0, all: 0, binds: HashSet::new() };
        for s in &b.stmts[k..] { u.visit_stmt(s) }
        let mut f = Names(HashSet::new());
        f.visit_expr(&c.body);
        let mut own = Uses { n: &n, calls: 0, all: 0, binds: HashSet::new() };
        own.visit_expr_closure(&c);
        let captured: HashSet<&String> = f.0.iter().filter(|x| !own.binds.contains(*x) && x.starts_with(|c: char| c.is_lowercase() || c == '_')).collect();
        if u.calls == 0 || u.calls != u.all || captured.iter().any(|x| u.binds.contains(*x)) { continue }
        for s in &mut b.stmts[k..] { Sub { n: &n, c: &c }.visit_stmt_mut(s) }
        b.stmts.remove(k - 1);
        k -= 1;
    }
}

impl<'a> Rw<'a> {
    fn fresh(&mut self) -> usize {
        self.fresh += 1;
        self.fresh
    }

    fn beta(&mut self, clos: &Expr, args: Vec<Expr>, kind: Kind, refs: &HashSet<String>) -> std::result::Result<Expr, String> {
        match strip(clos) {
            Expr::Closure(c) => {
                let mut stmts: Vec<Stmt> = vec![];
                let pats: Vec<&Pat> = c.inputs.iter().collect();
                if pats.len() != args.len() {
                    return Err("closure arity".into());
                }
                let mut ps: Vec<Pat> = vec![];
                let mut es: Vec<Expr> = vec![];
                for (p, a) in pats.into_iter().zip(args) {
                    let p = match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    if let (Pat::Ident(pi), Some(n)) = (&p, simple_ident(&a)) {
                        if pi.ident == n.as_str() {
                            continue;
                        }
                    }
                    if let Some(n) = simple_ident(&a) {
                        if refs.contains(&n) {
                            if let Pat::Ident(pi) = &p {
                                self.refs.insert(pi.ident.to_string());
                            }
                            es.push(parse_quote!(&mut *#a));
                            ps.push(p);
                            continue;
                        }
                    }
                    if let (Pat::Ident(pi), Expr::Reference(r)) = (&p, strip(&a)) {
                        if r.mutability.is_some() {
                            self.refs.insert(pi.ident.to_string());
                        }
                    }
                    ps.push(p);
                    es.push(a);
                }
                if ps.len() == 1 {
                    let (p, e) = (&ps[0], &es[0]);
                    stmts.push(parse_quote!(let #p = #e;));
                } else if ps.len() > 1 {
                    stmts.push(parse_quote!(let (#(#ps),*) = (#(#es),*);));
                }
                let body = cps(&as_stmts((*c.body).clone()), kind)?;
                stmts.push(Stmt::Expr(body, None));
                Ok(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(stmts) }))
            }
            Expr::Path(p) => {
                let mut q = Punctuated::<Expr, Token![,]>::new();
                q.extend(args);
                Ok(parse_quote!(#p(#q)))
            }
            _ => Err("higher-order argument is neither a closure nor a path".into()),
        }
    }

    /// Inline a call of `callee`. `recv` is the method receiver, if any.
    fn inline(
        &mut self,
        callee: &FnDef,
        recv: Option<Expr>,
        args: Vec<Expr>,
        turbofish: Option<&AngleBracketedGenericArguments>,
    ) -> std::result::Result<Expr, String> {
        let name = callee.sig.ident.to_string();
        if self.stack.iter().filter(|x| **x == name).count() > 2 || self.stack.len() > 12 {
            return Err(format!("recursive inlining of {name}"));
        }
        let Some(body) = callee.block.clone() else { return Err(format!("{name} has no body")) };
        let k = self.fresh();
        let mut pre: Vec<Stmt> = vec![];
        let mut map: HashMap<String, Expr> = HashMap::new();
        let mut closures: HashMap<String, (Expr, Kind)> = HashMap::new();
        let mut rename = HashMap::new();
        let mut refs: HashSet<String> = self.refs.clone();
        let mut self_recv_ref = None;
        let hof = fn_params(&callee.sig);

        let mut b = Binders(vec![]);
        b.visit_block(&body);
        for n in b.0 {
            rename.insert(n.clone(), format!("{n}__{k}"));
        }
        let mut it = args.into_iter();
        for p in &callee.sig.inputs {
            match p {
                FnArg::Receiver(r) => {
                    let e = match &recv {
                        Some(e) => e.clone(),
                        None => it.next().ok_or("missing receiver")?,
                    };
                    if r.reference.is_some() {
                        let by_ref = simple_ident(&e).map_or(false, |n| n == "self" || self.refs.contains(&n));
                        if is_place(&e) {
                            map.insert("self".into(), e.clone());
                            self_recv_ref = Some(if by_ref {
                                e.clone()
                            } else if r.mutability.is_some() {
                                parse_quote!(&mut #e)
                            } else {
                                parse_quote!(&#e)
                            });
                        } else if let Expr::Reference(rf) = strip(&e) {
                            let inner = (*rf.expr).clone();
                            if !is_place(&inner) {
                                return Err("receiver shape".into());
                            }
                            map.insert("self".into(), inner);
                            self_recv_ref = Some(e.clone());
                        } else {
                            let n = ident(&format!("self__{k}"));
                            pre.push(parse_quote!(let #n = #e;));
                            map.insert("self".into(), parse_quote!(#n));
                            self_recv_ref = Some(parse_quote!((&#n)));
                        }
                    } else {
                        let n = ident(&format!("self__{k}"));
                        if r.mutability.is_some() {
                            pre.push(parse_quote!(let mut #n = #e;));
                        } else {
                            pre.push(parse_quote!(let #n = #e;));
                        }
                        map.insert("self".into(), parse_quote!(#n));
                    }
                }
                FnArg::Typed(t) => {
                    let a = it.next().ok_or("missing argument")?;
                    let Pat::Ident(pi) = &*t.pat else {
                        let mut pat = (*t.pat).clone();
                        let mut sb = Subst { map: HashMap::new(), rename: rename.clone(), self_ty: None, self_recv_ref: None, consts: HashMap::new() };
                        let mut bb = Binders(vec![]);
                        bb.visit_pat(&pat);
                        for n in bb.0 {
                            sb.rename.insert(n.clone(), format!("{n}__{k}"));
                            rename.insert(n.clone(), format!("{n}__{k}"));
                        }
                        sb.visit_pat_mut(&mut pat);
                        pre.push(parse_quote!(let #pat = #a;));
                        continue;
                    };
                    let pn = pi.ident.to_string();
                    if let Some(bound) = hof.get(&pn) {
                        let mut a = strip(&a).clone();
                        // `&mut |x| ..`
                        if let Expr::Reference(r) = &a {
                            a = strip(&r.expr).clone();
                        }
                        closures.insert(pn, (a, bound_ret(bound)));
                        continue;
                    }
                    let is_ref = matches!(&*t.ty, Type::Reference(_));
                    if is_ref && simple_ident(&a).is_some() && pi.mutability.is_none() {
                        map.insert(pn, a);
                        continue;
                    }
                    let nn = format!("{pn}__{k}");
                    let n = ident(&nn);
                    if let Type::Reference(r) = &*t.ty {
                        if r.mutability.is_some() {
                            refs.insert(nn.clone());
                            self.refs.insert(nn.clone());
                        }
                    }
                    if pi.mutability.is_some() {
                        pre.push(parse_quote!(let mut #n = #a;));
                    } else {
                        pre.push(parse_quote!(let #n = #a;));
                    }
                    rename.insert(pn, nn);
                }
            }
        }
        // const generics through the turbofish
        let mut consts = HashMap::new();
        if let Some(tf) = turbofish {
            let gen: Vec<&GenericParam> =
                callee.sig.generics.params.iter().filter(|g| !matches!(g, GenericParam::Lifetime(_))).collect();
            for (g, a) in gen.iter().zip(tf.args.iter()) {
                if let GenericParam::Const(c) = g {
                    match a {
                        GenericArgument::Const(e) => {
                            consts.insert(c.ident.to_string(), e.clone());
                        }
                        GenericArgument::Type(t) => {
                            let ts = t.to_token_stream();
                            consts.insert(c.ident.to_string(), parse_quote!(#ts));
                        }
                        _ => {}
                    }
                }
            }
        } else if callee.sig.generics.params.iter().any(|g| matches!(g, GenericParam::Const(_))) {
            return Err("const generic without turbofish".into());
        }
        for (n, (e, _)) in &closures {
            map.insert(n.clone(), e.clone());
        }
        let self_ty = callee.self_ty.clone().map(|s| -> Path {
            let i = ident(&s);
            parse_quote!(#i)
        });
        let mut sub = Subst { map: map.clone(), rename: rename.clone(), self_ty, self_recv_ref, consts };
        // beta first marks: calls f(..) become __vx_beta calls
        let mut body = body;
        {
            struct MarkCalls<'b>(&'b HashMap<String, (Expr, Kind)>);
            impl<'b> VisitMut for MarkCalls<'b> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Call(c) = e {
                        if let Some(n) = simple_ident(&c.func) {
                            if self.0.contains_key(&n) {
                                let i = ident(&format!("__vx_beta_{n}"));
                                *c.func = parse_quote!(#i);
                            }
                        }
                    }
                }
            }
            MarkCalls(&closures).visit_block_mut(&mut body);
        }
        sub.visit_block_mut(&mut body);
        // apply closures
        let mut err = None;
        {
            struct Apply<'b, 'c, 'd> {
                rw: &'b mut Rw<'c>,
                cl: &'d HashMap<String, (Expr, Kind)>,
                refs: HashSet<String>,
                err: &'d mut Option<String>,
            }
            impl<'b, 'c, 'd> VisitMut for Apply<'b, 'c, 'd> {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    if let Expr::Call(c) = e {
                        if let Some(n) = simple_ident(&c.func) {
                            if let Some(n) = n.strip_prefix("__vx_beta_") {
                                let (cl, kind) = self.cl[n].clone();
                                let args = c.args.iter().cloned().collect();
                                let refs = self.refs.clone();
                                match self.rw.beta(&cl, args, kind, &refs) {
                                    Ok(x) => *e = x,
                                    Err(x) => *self.err = Some(x),
                                }
                                return;
                            }
                        }
                    }
                    visit_mut::visit_expr_mut(self, e);
                }
            }
            let mut r2 = refs.clone();
            for (_, e) in &map {
                if let Some(n) = simple_ident(e) {
                    if self.refs.contains(&n) {
                        r2.insert(n);
                    }
                }
            }
            Apply { rw: self, cl: &closures, refs: r2, err: &mut err }.visit_block_mut(&mut body);
        }
        if let Some(e) = err {
            return Err(e);
        }
        let kind = ret_kind(&callee.sig.output);
        let tail = if has_jump_b(&body) { cps(&body.stmts, kind)? } else { eblk(body.stmts) };
        self.inlined.push(name.clone());
        pre.extend(as_stmts(tail));
        let mut out = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk(pre) });
        self.stack.push(name);
        self.visit_expr_mut(&mut out);
        self.stack.pop();
        Ok(out)
    }

    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let known = self.cfg.contracted.contains(&n) || self.cfg.contracted.iter().any(|c| c.ends_with(&format!("::{n}")));
                // a closure that assigns to what it captures has no contract: the callee is inlined
                if known && !m.args.iter().any(assigns) {
                    return None;
                }
                let on_self = simple_ident(&m.receiver).map_or(false, |x| x == "self");
                let own = if on_self { self.self_ty.clone().and_then(|s| self.krate.method(&s, &n)).cloned() } else { None };
                let def = match own {
                    Some(d) => d,
                    None if on_self && self.cfg.inline.contains(&n) => {
                        // a provided method of a trait, inlined on request
                        let v: Vec<_> = self.krate.fns.get(&n)?.iter().filter(|f| f.in_trait_decl && f.block.is_some()).collect();
                        if v.len() != 1 {
                            return None;
                        }
                        v[0].clone()
                    }
                    None => {
                        let c = self.krate.inherent_methods(&n);
                        if c.len() != 1 {
                            return None;
                        }
                        let def = c[0].clone();
                        let hof = !fn_params(&def.sig).is_empty();
                        const STD: &[&str] = &[
                            "new", "len", "iter", "get", "next", "push", "pop", "map", "find", "min", "max", "cmp", "eq",
                            "from", "into", "as_str", "chars", "clone", "is_empty", "start", "end", "span", "last", "first",
                            "rev", "insert", "contains", "clear", "take", "join", "and", "or", "not", "is_some", "is_none",
                        ];
                        if !hof && STD.contains(&n.as_str()) {
                            return None;
                        }
                        def
                    }
                };
                // a receiver must be there
                if def.sig.receiver().is_none() || def.sig.inputs.len() != m.args.len() + 1 {
                    return None;
                }
                let args = m.args.iter().cloned().collect();
                match self.inline(&def, Some((*m.receiver).clone()), args, m.turbofish.as_ref()) {
                    Ok(x) => Some(x),
                    Err(x) => {
                        self.issues.push(format!("cannot inline {n}: {x}"));
                        None
                    }
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = strip(&c.func) else { return None };
                if p.qself.is_some() {
                    return None;
                }
                let n = last_seg(&p.path);
                let ns = p.path.segments.len();
                let qual = if ns >= 2 { Some(p.path.segments[ns - 2].ident.to_string()) } else { None };
                let qual = match qual.as_deref() {
                    Some("Self") => self.self_ty.clone(),
                    Some(q) if self.cfg.modules.contains(q) || q == "crate" || q == "super" || q == "self" => None,
                    Some(q) => Some(q.to_string()),
                    None => None,
                };
                let (key, def) = match &qual {
                    Some(q) => {
                        let d = self.krate.method(q, &n)?.clone();
                        (format!("{q}::{n}"), d)
                    }
                    None => {
                        let v = self.krate.free_fn(&n);
                        if v.len() != 1 {
                            return None;
                        }
                        (n.clone(), v[0].clone())
                    }
                };
                if self.cfg.contracted.contains(&key) && !c.args.iter().any(assigns) {
                    return None;
                }
                if def.sig.inputs.len() != c.args.len() {
                    return None;
                }
                let tf = match &p.path.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => Some(a.clone()),
                    _ => None,
                };
                let args = c.args.iter().cloned().collect();
                match self.inline(&def, None, args, tf.as_ref()) {
                    Ok(x) => Some(x),
                    Err(x) => {
                        self.issues.push(format!("cannot inline {n}: {x}"));
                        None
                    }
                }
            }
            _ => None,
        }
    }

    /// Matches Verus lacks: guards and `|` in patterns that bind by mutable reference, string literal patterns.
    fn plain_match(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Match(m) = e else { return None };
        fn binds(p: &Pat) -> bool {
            struct V(bool);
            impl<'ast> Visit<'ast> for V {
                fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                    if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') { self.0 = true }
                }
            }
            let mut v = V(false);
            v.visit_pat(p);
            v.0
        }
        if simple_ident(&m.expr).as_deref() == Some("self") && self.refs.contains("self") {
            if let Some(i) = m.arms.iter().position(|a| matches!(a.pat, Pat::Or(_)) && binds(&a.pat)) {
                let mut m = m.clone();
                let a = m.arms.remove(i);
                let Pat::Or(o) = &a.pat else { return None };
                for (k, c) in o.cases.iter().enumerate() { m.arms.insert(i + k, Arm { pat: c.clone(), comma: Some(Default::default()), ..a.clone() }) }
                let m = Expr::Match(m);
                return Some(self.plain_match(&m).unwrap_or(m));
            }
            let i = m.arms.iter().position(|a| a.guard.is_some() && binds(&a.pat))?;
            let (pre, a, post) = (&m.arms[..i], &m.arms[i], &m.arms[i + 1..]);
            let (p, g, b) = (&a.pat, &a.guard.as_ref().unwrap().1, &a.body);
            let rest: Expr = parse_quote!(match self { #(#post)* });
            let rest = self.plain_match(&rest).unwrap_or(rest);
            let one: Expr = parse_quote!(if match &*self { #p if #g => true, _ => false } { match self { #p => #b, _ => vx_panic() } } else { #rest });
            return Some(if pre.is_empty() { one } else { parse_quote!(match self { #(#pre)* _ => { #one } }) });
        }
        // patterns for the elements of a slice
        let of_slice = |p: &Pat| matches!(p, Pat::Slice(s) if s.elems.iter().all(|x| matches!(x, Pat::Wild(_) | Pat::Path(_) | Pat::Ident(PatIdent { by_ref: None, subpat: None, .. }))));
        if m.arms.iter().any(|a| of_slice(&a.pat)) && m.arms.iter().all(|a| a.guard.is_none() && (of_slice(&a.pat) || matches!(a.pat, Pat::Wild(_)))) && matches!(m.arms.last(), Some(a) if matches!(a.pat, Pat::Wild(_))) {
            let base = match strip(&m.expr) {
                Expr::Reference(r) => match strip(&r.expr) { Expr::Index(i) if matches!(strip(&i.index), Expr::Range(r) if r.start.is_none() && r.end.is_none()) => strip(&i.expr), e => e },
                Expr::MethodCall(c) if c.method == "as_slice" => strip(&c.receiver),
                e => e,
            };
            if simple_ident(base).is_some() {
                let mut out: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    let Pat::Slice(s) = &a.pat else { out = Some(parse_quote!({ #b })); continue };
                    let k = s.elems.len();
                    let mut c: Expr = parse_quote!(#base.len() == #k);
                    let mut l: Vec<Stmt> = vec![];
                    for (i, x) in s.elems.iter().enumerate() {
                        match x {
                            Pat::Path(p) => c = parse_quote!(#c && #base[#i] == #p),
                            Pat::Ident(p) => l.push(parse_quote!(let #p = &#base[#i];)),
                            _ => {}
                        }
                    }
                    let o = out.take()?;
                    out = Some(parse_quote!(if #c { #(#l)* #b } else { #o }));
                }
                return out;
            }
        }
        // a string literal in a pattern: a binding and a guard
        struct L(bool);
        impl<'ast> Visit<'ast> for L { fn visit_expr_lit(&mut self, l: &'ast ExprLit) { if matches!(l.lit, Lit::Str(_)) { self.0 = true } } }
        let has = |p: &Pat| { let mut v = L(false); v.visit_pat(p); v.0 };
        if !m.arms.iter().any(|a| has(&a.pat)) { return None }
        let mut m = m.clone();
        let mut arms = vec![];
        for a in m.arms {
            match &a.pat {
                Pat::Or(o) if has(&a.pat) => for c in &o.cases { arms.push(Arm { pat: c.clone(), comma: Some(Default::default()), ..a.clone() }) },
                _ => arms.push(a),
            }
        }
        for a in arms.iter_mut() {
            struct S { n: usize, conds: Vec<Expr> }
            impl VisitMut for S {
                fn visit_pat_mut(&mut self, p: &mut Pat) {
                    if let Pat::Lit(l) = p {
                        if matches!(l.lit, Lit::Str(_)) {
                            let v = ident(&format!("__s{}", self.n));
                            self.n += 1;
                            let l = &l.lit;
                            self.conds.push(parse_quote!(#v == #l));
                            *p = parse_quote!(#v);
                            return;
                        }
                    }
                    visit_mut::visit_pat_mut(self, p)
                }
            }
            let mut v = S { n: self.fresh, conds: vec![] };
            v.visit_pat_mut(&mut a.pat);
            self.fresh = v.n;
            let c = &v.conds;
            if c.is_empty() { continue }
            a.guard = Some(match &a.guard { Some((i, g)) => { let g: Expr = parse_quote!(#(#c)&&* && #g); (*i, Box::new(g)) } None => { let g: Expr = parse_quote!(#(#c)&&*); (Default::default(), Box::new(g)) } });
        }
        m.arms = arms;
        Some(Expr::Match(m))
    }

    fn combinator(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let n = m.method.to_string();
        let r = &m.receiver;
        let k = self.fresh();
        let v = ident(&format!("__v{k}"));
        // apply a closure or function path to an expression
        let app = |f: &Expr, a: Option<Expr>| -> Option<Expr> {
            match strip(f) {
                Expr::Closure(c) => {
                    if has_jump_e(&c.body) {
                        return None;
                    }
                    let body = &c.body;
                    match (c.inputs.len(), a) {
                        (0, _) => Some(parse_quote!({ #body })),
                        (1, Some(a)) => {
                            let p = match &c.inputs[0] {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            Some(parse_quote!({ let #p = #a; #body }))
                        }
                        _ => None,
                    }
                }
                Expr::Path(p) => match a {
                    Some(a) => Some(parse_quote!(#p(#a))),
                    None => Some(parse_quote!(#p())),
                },
                _ => None,
            }
        };
        let args: Vec<&Expr> = m.args.iter().collect();
        let iterish = |e: &Expr| {
            matches!(strip(e), Expr::MethodCall(m) if matches!(m.method.to_string().as_str(),
            "iter" | "into_iter" | "chars" | "rev" | "char_indices" | "map" | "filter" | "enumerate" | "skip" | "take" | "bytes" | "skip_while" | "take_while" | "lines" | "windows" | "into_inner"))
        };
        let over_mut = |e: &Expr| matches!(strip(e), Expr::MethodCall(m) if m.method == "iter_mut");
        let is_clo = |e: &Expr| matches!(strip(e), Expr::Closure(_));
        Some(match (n.as_str(), args.as_slice()) {
            ("map", [f]) if matches!(strip(f), Expr::Path(p) if p.path.to_token_stream().to_string() == "AsRef :: as_ref") => parse_quote!(#r.vx_as_refs()),
            ("map", [f]) if !iterish(r) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Some(#v) => Some(#b), None => None })
            }
            ("and_then", [f]) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Some(#v) => #b, None => None })
            }
            ("map_or", [d, f]) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Some(#v) => #b, None => #d })
            }
            ("map_or_else", [d, f]) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                let d = app(d, None)?;
                parse_quote!(match #r { Some(#v) => #b, None => #d })
            }
            ("ok_or_else", [f]) if self.cfg.renames.contains_key(&("ok_or_else".to_string(), 1)) => {
                let n = ident(&self.cfg.renames[&("ok_or_else".to_string(), 1)]);
                let b = app(f, None)?;
                parse_quote!(#r.#n(#b))
            }
            ("ok_or_else", [f]) => {
                let b = app(f, None)?;
                parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })
            }
            // (of a result: the closure takes the error)
            ("unwrap_or_else", [f]) if matches!(strip(f), Expr::Closure(c) if c.inputs.len() == 1) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Ok(#v) => #v, Err(#v) => #b })
            }
            ("unwrap_or_else", [f]) => {
                let b = app(f, None)?;
                parse_quote!(match #r { Some(#v) => #v, None => #b })
            }
            ("or_else", [f]) if matches!(strip(f), Expr::Closure(c) if c.inputs.is_empty()) => {
                let b = app(f, None)?;
                parse_quote!(match #r { Some(#v) => Some(#v), None => #b })
            }
            // (of a result: the closure takes the error)
            ("or_else", [f]) if matches!(strip(f), Expr::Closure(c) if c.inputs.len() == 1) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#v) => #b })
            }
                        ("is_some_and", [f]) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Some(#v) => #b, None => false })
            }
            ("is_none_or", [f]) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Some(#v) => #b, None => true })
            }
            ("filter", [f]) if !iterish(r) && is_clo(f) => {
                let b = app(f, Some(parse_quote!(&#v)))?;
                parse_quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })
            }
            ("map_err", [f]) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#v) => Err(#b) })
            }
            ("then", [f]) if is_clo(f) => {
                let b = app(f, None)?;
                parse_quote!(if #r { Some(#b) } else { None })
            }
            ("any" | "all", [f]) if over_mut(r) && is_clo(f) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                let q = ident(&format!("vx_out{}", self.outs));
                self.outs += 1;
                if n == "any" { parse_quote!({ let mut #q = false; for #v in #r { if #b { #q = true; break; } } #q }) }
                else { parse_quote!({ let mut #q = true; for #v in #r { if !#b { #q = false; break; } } #q }) }
            }
            ("for_each", [f]) if over_mut(r) && is_clo(f) => {
                let b = app(f, Some(parse_quote!(#v)))?;
                parse_quote!({ for #v in #r { #b; } })
            }
            ("fold", [d, f]) if over_mut(r) && matches!(strip(f), Expr::Closure(c) if c.inputs.len() == 2 && !has_jump_e(&c.body)) => {
                let Expr::Closure(c) = strip(f) else { return None };
                let (a, x, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                let q = ident(&format!("vx_out{}", self.outs));
                self.outs += 1;
                parse_quote!({ let mut #q = #d; for #v in #r { let #a = #q; let #x = #v; #q = #b; } #q })
            }
            ("collect" | "vx_collect", []) if matches!(strip(r), Expr::MethodCall(m) if (m.method == "map" || m.method == "filter") && m.args.len() == 1 && (is_clo(&m.args[0]) || matches!(strip(&m.args[0]), Expr::Path(_)))) => {
                // `base.map(f)...collect()` into a vector, as a loop
                let out = ident(&format!("vx_out{}", self.outs));
                self.outs += 1;
                let mut stages = vec![];
                let mut base = strip(r).clone();
                loop {
                    let next = match &base {
                        Expr::MethodCall(m) if (m.method == "map" || m.method == "filter") && m.args.len() == 1 && (is_clo(&m.args[0]) || matches!(strip(&m.args[0]), Expr::Path(_))) => {
                            stages.push((m.method == "map", m.args[0].clone()));
                            strip(&m.receiver).clone()
                        }
                        _ => break,
                    };
                    base = next;
                }
                let results = m.turbofish.as_ref().is_some_and(|t| matches!(t.args.first(), Some(GenericArgument::Type(Type::Path(p))) if last_seg(&p.path) == "Result"));
                let bad = ident(&format!("vx_err{}", self.outs));
                let mut body: Expr = if results { parse_quote!({ match #v { Ok(vx_x) => { #out.push(vx_x); } Err(vx_e) => { #bad = Some(vx_e); break; } } }) } else { parse_quote!({ #out.push(#v); }) };
                for (is_map, f) in &stages {
                    body = if *is_map {
                        let b = app(f, Some(parse_quote!(#v)))?;
                        parse_quote!({ let #v = #b; #body })
                    } else {
                        let b = app(f, Some(parse_quote!(&#v)))?;
                        parse_quote!({ if #b { #body } })
                    };
                }
                if results { return Some(parse_quote!({ let mut #out = Vec::new(); let mut #bad = None; for #v in #base #body match #bad { None => Ok(#out), Some(vx_e) => Err(vx_e) } })); }
                match self.cfg.renames.get(&("collect".to_string(), 0)).filter(|_| n == "collect") {
                    Some(n) => { let n = ident(n); parse_quote!({ let mut #out = Vec::new(); for #v in #base #body #n(#out) }) }
                    None => parse_quote!({ let mut #out = Vec::new(); for #v in #base #body #out }),
                }
            }
            // folds over what a vector had in it
            ("try_fold" | "fold" | "rfold", [d, f]) if matches!(strip(r), Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty()) && matches!(strip(f), Expr::Closure(c) if c.inputs.len() == 2 && !has_jump_e(&c.body)) => {
                let Expr::Closure(c) = strip(f) else { return None };
                let (a, x, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                let q = ident(&format!("vx_out{}", self.outs));
                self.outs += 1;
                match n.as_str() {
                    "try_fold" => parse_quote!({ let mut #q = Ok(#d); for #v in #r { #q = match #q { Ok(vx_acc) => { let #a = vx_acc; let #x = #v; #b } Err(vx_err) => Err(vx_err) }; } #q }),
                    "fold" => parse_quote!({ let mut #q = #d; for #v in #r { let #a = #q; let #x = #v; #q = #b; } #q }),
                    _ => parse_quote!({ let mut #q = #d; for #v in #r.rev() { let #a = #q; let #x = #v; #q = #b; } #q }),
                }
            }
            ("then_some", [x]) => parse_quote!({ let #v = #x; if #r { Some(#v) } else { None } }),
            _ => return None,
        })
    }

    /// `<T as a::b::Trait>::name` and `<T>::name`
    fn norm_qpath(&mut self, q: &mut Option<QSelf>, p: &mut Path) {
        let Some(q) = q else { return };
        self.visit_type_mut(&mut q.ty);
        let mut tr: Vec<PathSegment> = p.segments.iter().take(q.position).cloned().collect();
        let mut rest: Vec<PathSegment> = p.segments.iter().skip(q.position).cloned().collect();
        rest.iter_mut().for_each(|s| self.visit_path_segment_mut(s));
        if !tr.is_empty() {
            let mut t = Path { leading_colon: p.leading_colon, segments: tr.drain(..).collect() };
            self.visit_path_mut(&mut t);
            q.position = t.segments.len();
            p.leading_colon = None;
            p.segments = t.segments.into_iter().chain(rest).collect();
        } else {
            p.leading_colon = Some(Default::default());
            p.segments = rest.into_iter().collect();
        }
    }

    fn norm_path(&self, p: &mut Path) {
        let mut segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let first = segs[0].ident.to_string();
        let lead = p.leading_colon.is_some();
        if segs.len() > 1 {
            let strip_std = matches!(first.as_str(), "core" | "std" | "alloc");
            if strip_std {
                // keep `core::x::y` except for prelude-ish types
                let last = segs.last().unwrap().ident.to_string();
                const PRE: &[&str] =
                    &["Option", "Some", "None", "Result", "Ok", "Err", "PhantomData", "Box", "Vec", "String", "Ordering", "Range", "Bound", "Clone", "usize", "char", "bool"];
                if let Some(ix) = segs.iter().position(|s| {
                    let n = s.ident.to_string();
                    PRE.contains(&n.as_str()) && n.chars().next().unwrap().is_uppercase()
                }) {
                    segs.drain(..ix);
                } else if PRE.contains(&last.as_str()) {
                    let l = segs.len() - 1;
                    segs.drain(..l);
                } else if first == "alloc" {
                    segs[0].ident = ident("std");
                }
            } else if matches!(first.as_str(), "crate" | "super" | "self") || (self.cfg.modules.contains(&first) && !lead) || lead {
                let mut i = 0;
                while i + 1 < segs.len() {
                    let n = segs[i].ident.to_string();
                    if matches!(n.as_str(), "crate" | "super" | "self" | "std") || self.cfg.modules.contains(&n) {
                        i += 1;
                    } else {
                        break;
                    }
                }
                if i > 0 && segs[i - 1].ident == "unicode" && i + 1 == segs.len() && segs[i].ident.to_string().chars().all(|c| c.is_uppercase() || c == '_') {
                    let n = ident(&format!("unicode_{}", segs[i].ident));
                    segs[i].ident = n;
                }
                segs.drain(..i);
            }
        }
        // (not the variants of a type)
        let of_type: Vec<bool> = (0..segs.len()).map(|i| i > 0 && segs[i - 1].ident.to_string().starts_with(|c: char| c.is_uppercase())).collect();
        for (s, v) in segs.iter_mut().zip(of_type) {
            if v { continue }
            if let Some(n) = self.cfg.idents.get(&s.ident.to_string()) {
                s.ident = ident(n);
            }
        }
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
        let txt: String = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if let Some(n) = self.cfg.paths.get(&txt) {
            let args = p.segments.last().unwrap().arguments.clone();
            let mut q: Path = parse_str(n).unwrap();
            q.segments.last_mut().unwrap().arguments = args;
            *p = q;
        }
    }
}

/// Remove `&` patterns below `p`; returns the identifiers that now bind a reference.
fn strip_ref_pats(p: &mut Pat, out: &mut Vec<Ident>, issues: &mut Vec<String>) {
    match p {
        Pat::Reference(r) => {
            let inner = (*r.pat).clone();
            match &inner {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => out.push(i.ident.clone()),
                Pat::Lit(_) | Pat::Wild(_) | Pat::Path(_) => {}
                _ => issues.push("reference pattern".into()),
            }
            *p = inner;
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| strip_ref_pats(e, out, issues)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| strip_ref_pats(e, out, issues)),
        Pat::Struct(t) => t.fields.iter_mut().for_each(|e| strip_ref_pats(&mut e.pat, out, issues)),
        Pat::Or(t) => t.cases.iter_mut().for_each(|e| strip_ref_pats(e, out, issues)),
        Pat::Paren(t) => strip_ref_pats(&mut t.pat, out, issues),
        _ => {}
    }
}
fn derefs(ids: &[Ident]) -> Vec<Stmt> {
    ids.iter().map(|i| parse_quote!(let #i = *#i;)).collect()
}

/// `must_use(format(format_args!(..)))`
fn formatted(e: &Expr) -> Option<Expr> {
    let Expr::Call(c) = e else { return None };
    if !matches!(strip(&c.func), Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "must_use")) { return None }
    struct A(Option<Expr>);
    impl<'ast> Visit<'ast> for A {
        fn visit_expr_macro(&mut self, m: &'ast ExprMacro) { if self.0.is_none() { self.0 = format_pieces(&Expr::Macro(m.clone())) } }
    }
    let mut v = A(None);
    v.visit_expr_call(c);
    v.0
}
/// the text of `format_args!(literal, args..)` as its pieces in order
fn format_pieces(e: &Expr) -> Option<Expr> {
    let Expr::Macro(m) = strip(e) else { return None };
    if !m.mac.path.is_ident("format_args") { return None }
    let args = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let args: Vec<Expr> = args.into_iter().collect();
    let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = args.first()? else { return None };
    let (l, args) = (l.value(), &args[1..]);
    let mut out: Expr = parse_quote!(VxText::new());
    let mut lit = String::new();
    let mut it = l.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{') }
            '}' => { it.next(); lit.push('}') }
            '{' => {
                if !lit.is_empty() { let t = std::mem::take(&mut lit); out = parse_quote!(#out.vx_lit(#t)); }
                let spec: String = it.by_ref().take_while(|c| *c != '}').collect();
                let (n, w) = match spec.split_once(':') { Some((n, w)) => (n.to_string(), Some(w.to_string())), None => (spec, None) };
                let a = args.get(n.parse::<usize>().ok()?)?;
                out = match w {
                    None => parse_quote!(#out.vx_arg(&(#a))),
                    Some(w) => { let w = args.get(w.strip_suffix('$')?.parse::<usize>().ok()?)?; parse_quote!(#out.vx_pad(&(#a), #w)) }
                };
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() { out = parse_quote!(#out.vx_lit(#lit)); }
    Some(out)
}
/// `format_ident!(literal, args..)`: the pieces of the identifier
fn ident_pieces(e: &Expr) -> Option<Expr> {
    let mut args: Vec<Expr> = vec![];
    let mut e = strip(e).clone();
    loop {
        let Expr::Match(m) = &e else { return None };
        let Expr::Call(c) = strip(&m.expr) else { return None };
        if !matches!(strip(&c.func), Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "IdentFragmentAdapter")) { return None }
        args.push(c.args.first()?.clone());
        if m.arms.len() != 1 { return None }
        let next = strip(&m.arms[0].body).clone();
        e = next;
        if let Expr::Call(c) = &e {
            if !matches!(strip(&c.func), Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "mk_ident")) { return None }
            struct A(Option<Macro>);
            impl<'ast> Visit<'ast> for A {
                fn visit_macro(&mut self, m: &'ast Macro) { if self.0.is_none() && m.path.is_ident("format_args") { self.0 = Some(m.clone()) } }
            }
            let mut v = A(None);
            v.visit_expr(c.args.first()?);
            let m = v.0?;
            let old = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
            if old.len() != args.len() + 1 || old.iter().skip(1).any(|a| simple_ident(a).as_deref() != Some("arg")) { return None }
            let l = &old[0];
            let args: Vec<Expr> = args.iter().map(|a| match strip(a) { Expr::Reference(r) => (*r.expr).clone(), _ => parse_quote!(*#a) }).collect();
            let t = format_pieces(&parse_quote!(format_args!(#l, #(#args),*)))?;
            return Some(parse_quote!(vx_ident(#t)));
        }
    }
}
/// a repetition in `quote!`: its statements but for the loop, and the loop
fn repetition(b: &Block) -> Option<Expr> {
    let first = b.stmts.first()?.to_token_stream().to_string().replace(' ', "");
    if !first.contains("::quote::__private::ext::*") { return None }
    let mut vars: Vec<Ident> = vec![];
    let mut body: Option<Block> = None;
    for s in &b.stmts[1..] {
        match s {
            Stmt::Local(l) => {
                let Some(i) = &l.init else { return None };
                if let Expr::MethodCall(m) = strip(&i.expr) {
                    if m.method == "quote_into_iter" { vars.push(ident(&simple_ident(&m.receiver)?)) }
                }
            }
            Stmt::Expr(Expr::While(w), _) => body = Some(w.body.clone()),
            Stmt::Expr(..) => {}
            _ => return None,
        }
    }
    let mut body = body?;
    if vars.is_empty() || body.stmts.len() < vars.len() { return None }
    // bindings of the variables, in order
    for v in &vars {
        let Stmt::Local(l) = body.stmts.remove(0) else { return None };
        if !matches!(&l.pat, Pat::Ident(p) if p.ident == *v) { return None }
    }
    // a separator
    if body.to_token_stream().to_string().contains("_i") && b.stmts.iter().any(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == "_i"))) { return None }
    let stmts = &body.stmts;
    let mut vars = vars;
    vars.dedup();
    Some(match vars.as_slice() {
        [v] => parse_quote!(for #v in #v.vx_reps() { #(#stmts)* }),
        [v, w] => parse_quote!(for (#v, #w) in vx_zip2(#v.vx_reps(), #w.vx_reps()) { #(#stmts)* }),
        [v, w, x] => parse_quote!(for (#v, #w, #x) in vx_zip3(#v.vx_reps(), #w.vx_reps(), #x.vx_reps()) { #(#stmts)* }),
        _ => return None,
    })
}
impl<'a> VisitMut for Rw<'a> {
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        if let (Some(p), Some(n)) = (is_fn_bound(b), self.cfg.paths.get("FnMut")) {
            if p.segments.last().unwrap().ident == "FnMut" { *b = parse_str(n).unwrap(); return }
        }
        visit_mut::visit_type_param_bound_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut ids = vec![];
        strip_ref_pats(&mut a.pat, &mut ids, &mut self.issues);
        if !ids.is_empty() {
            if let Some((i, g)) = &mut a.guard {
                let d = derefs(&ids);
                let g2 = g.clone();
                *g = parse_quote!({ #(#d)* #g2 });
                let _ = i;
            }
            let d = derefs(&ids);
            let b = &a.body;
            a.body = parse_quote!({ #(#d)* #b });
        }
        // `n..` as a guard
        if let (Pat::Range(PatRange { start: Some(lo), end: None, .. }), None) = (&a.pat, &a.guard) {
            let v = ident("__n");
            let lo = lo.clone();
            a.pat = parse_quote!(#v);
            a.guard = Some((Default::default(), parse_quote!(#v >= #lo)));
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        if let Expr::Let(l) = &mut *e.cond {
            let mut ids = vec![];
            strip_ref_pats(&mut l.pat, &mut ids, &mut self.issues);
            let mut d = derefs(&ids);
            d.extend(std::mem::take(&mut e.then_branch.stmts));
            e.then_branch.stmts = d;
        }
        visit_mut::visit_expr_if_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
            if r.mutability.is_none() {
                let inner = (*r.pat).clone();
                let x = &i.expr;
                i.expr = parse_quote!(*#x);
                l.pat = inner;
            }
        }
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if matches!(strip(&i.expr), Expr::Reference(r) if r.mutability.is_some()) {
                self.refs.insert(p.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        if let Some(x) = repetition(b) { *b = parse_quote!({ #x }); }
        // an iterator that a `quote!` goes through: collected where it is made
        for k in 0..b.stmts.len() {
            let rest = b.stmts[k + 1..].iter().map(|s| s.to_token_stream().to_string()).collect::<String>();
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) = &mut b.stmts[k] {
                if !rest.contains(&format!("{} . quote_into_iter", p.ident)) { continue }
                if matches!(strip(&i.expr), Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(strip(&m.args[0]), Expr::Closure(_))) {
                    let x = &i.expr;
                    i.expr = parse_quote!(#x.vx_collect());
                }
            }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        Pratt(0).visit_block_mut(b);
        destructured(b);
        local_closures(b);
        // the message kind of a failed assertion
        b.stmts.retain(|s| {
            !matches!(s, Stmt::Local(Local { init: Some(i), .. })
                if matches!(strip(&i.expr), Expr::Path(p) if p.path.segments.iter().any(|s| s.ident == "panicking")))
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = self.plain_match(e) {
            *e = x;
        }
        // the text of a panic message
        if let Expr::MethodCall(m) = e {
            if m.method == "expect" && m.args.len() == 1 && !matches!(strip(&m.args[0]), Expr::Lit(_)) { m.args[0] = parse_quote!(""); }
        }
        if self.cfg.renames.contains_key(&("mk_ident".to_string(), 1)) {
            if let Some(t) = ident_pieces(e) { *e = t; }
        }
        // formatted text, piece by piece
        if self.cfg.renames.contains_key(&("format_args".to_string(), 1)) {
            if let Expr::MethodCall(m) = e {
                if m.method == "write_fmt" && m.args.len() == 1 {
                    if let Some(t) = format_pieces(&m.args[0]) {
                        let r = &m.receiver;
                        *e = parse_quote!(#r.vx_write(#t));
                    }
                }
            }
            if let Some(t) = formatted(e) { *e = parse_quote!(#t.vx_string()); }
        }
        if let Expr::Call(c) = e {
            if let Some(n) = simple_ident(&c.func).and_then(|f| self.cfg.renames.get(&(format!("fn:{f}"), c.args.len()))) {
                let (n, f, a) = (ident(n), strip(&c.func), &c.args);
                *e = parse_quote!(#f.#n(#a));
            }
        }
        // calling a closure kept in a field
        if let Expr::Call(c) = e {
            if matches!(strip(&c.func), Expr::Field(_)) {
                let (f, a) = (strip(&c.func), &c.args);
                *e = parse_quote!(#f.vx_call(#a));
            }
        }
        if let Expr::Call(c) = e {
            if matches!(strip(&c.func), Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "must_use")) && c.to_token_stream().to_string().contains("format_args") {
                *e = parse_quote!(vx_formatted());
                return;
            }
        }
        // `vec![..]`
        if let Expr::Call(c) = e {
            if matches!(strip(&c.func), Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "box_assume_init_into_vec_unsafe")) {
                struct A(Option<ExprArray>);
                impl<'ast> Visit<'ast> for A {
                    fn visit_expr_array(&mut self, a: &'ast ExprArray) { if self.0.is_none() { self.0 = Some(a.clone()) } }
                }
                let mut v = A(None);
                v.visit_expr_call(c);
                if let Some(a) = v.0 {
                    let items = a.elems.iter();
                    let n = ident(&format!("__v{}", self.fresh));
                    self.fresh += 1;
                    *e = parse_quote!({ let mut #n = Vec::new(); #( #n.push(#items); )* #n });
                }
            }
        }
        // 1. inlining (top down)
        if let Some(x) = self.try_inline(e) {
            *e = x;
            return; // inline() already visited the result
        }
        // 2. Option combinators with closures
        if let Some(x) = self.combinator(e) {
            *e = x;
        }
        // panics
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = strip(&c.func) {
                if p.path.segments.iter().any(|s| s.ident == "panicking") {
                    let said = p.path.segments.last().is_some_and(|s| s.ident == "panic_fmt" || s.ident == "panic_display" || s.ident == "panic");
                    *e = if self.halts && said && !c.args.to_token_stream().to_string().contains("unreachable") { parse_quote!(vx_halt()) } else { parse_quote!(vx_panic()) };
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::BitOr(_)) && self.cfg.renames.contains_key(&("bitor".to_string(), 1)) && matches!(strip(&b.right), Expr::Call(_)) {
                let (l, r, n) = (&b.left, &b.right, ident(&self.cfg.renames[&("bitor".to_string(), 1)]));
                *e = parse_quote!(#l.#n(#r));
                return;
            }
        }
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::BitOrAssign(_)) && simple_ident(&b.left).is_some() {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(if #r { #l = true; });
            }
        }
        // range indexing becomes a call with a contract
        if let Expr::Index(ix) = e {
            if matches!(strip(&ix.index), Expr::Range(_) | Expr::Path(_)) {
                let (b, i) = (&ix.expr, strip(&ix.index));
                *e = parse_quote!((*#b.vx_index(#i)));
            }
        }
        // map entries: `m.entry(k).or_default()` is one operation with a contract
        if let Expr::MethodCall(m) = e {
            if m.method == "or_default" && m.args.is_empty() {
                if let Expr::MethodCall(x) = strip(&m.receiver) {
                    if x.method == "entry" && x.args.len() == 1 {
                        let (r, a) = (&x.receiver, &x.args[0]);
                        *e = parse_quote!(#r.vx_entry_or_default(#a));
                    }
                }
            }
        }
        // 3. renames
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.cfg.renames.get(&(m.method.to_string(), m.args.len())) {
                m.method = ident(n);
            }
            // closures passed to wrapped iterator adaptors get their own contract
            const ADAPT: &[&str] = &["skip_while", "take_while", "find", "position", "any", "all", "rposition"];
            if ADAPT.contains(&m.method.to_string().trim_start_matches("vx_")) && m.args.len() == 1 {
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    if c.inputs.len() == 1 && !has_jump_e(&c.body) {
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let (p, star) = match p {
                            Pat::Reference(r) => (*r.pat, quote!(*)),
                            p => (p, quote!()),
                        };
                        let b = &c.body;
                        let k = ident(&format!("__c{}", self.fresh));
                        self.fresh += 1;
                        let mut sb = (**b).clone();
                        StrViews.visit_expr_mut(&mut sb);
                        let ts: TokenStream =
                            quote!(|#k| -> (__r: bool) ensures __r == ({ let #p = #star #k; #sb }) { let #p = #star #k; #b });
                        m.args[0] = Expr::Verbatim(ts);
                    }
                }
            }
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_some() { self.norm_qpath(&mut p.qself, &mut p.path) } else { visit_mut::visit_expr_path_mut(self, p) }
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        if p.qself.is_some() { self.norm_qpath(&mut p.qself, &mut p.path) } else { visit_mut::visit_type_path_mut(self, p) }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.norm_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        self.issues.push(format!("macro {}", m.path.to_token_stream()));
    }
}

/// Counts and marks loops (pre-order).
/// `let S { a, b } = &mut x;`: the names are the fields of `x`
fn destructured(b: &mut Block) {
    for k in 0..b.stmts.len() {
        let Stmt::Local(Local { pat: Pat::Struct(p), init: Some(i), .. }) = &b.stmts[k] else { continue };
        let Expr::Reference(r) = strip(&i.expr) else { continue };
        let Expr::Path(x) = strip(&r.expr) else { continue };
        let names: Vec<Ident> = p.fields.iter().filter(|f| f.colon_token.is_none()).filter_map(|f| if let Pat::Ident(n) = &*f.pat { Some(n.ident.clone()) } else { None }).collect();
        if r.mutability.is_none() || names.len() != p.fields.len() { continue }
        struct Bound<'a>(&'a [Ident], bool);
        impl<'ast, 'a> syn::visit::Visit<'ast> for Bound<'a> {
            fn visit_pat_ident(&mut self, p: &'ast PatIdent) { if self.0.contains(&p.ident) { self.1 = true } }
        }
        let mut shadowed = Bound(&names, false);
        for s in &b.stmts[k + 1..] { syn::visit::Visit::visit_stmt(&mut shadowed, s); }
        if shadowed.1 { continue }
        struct Put(Vec<Ident>, Expr);
        impl VisitMut for Put {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if let Some(n) = p.path.get_ident() { if self.0.contains(n) { let x = &self.1; *e = parse_quote!(#x.#n); return } }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut put = Put(names, Expr::Path(x.clone()));
        for s in &mut b.stmts[k + 1..] { put.visit_stmt_mut(s); }
        b.stmts.remove(k);
        return destructured(b);
    }
}
pub struct Loops<'a> {
    pub count: usize,
    /// per loop: is it a `for`
    pub kinds: Vec<bool>,
    /// its own tokens
    pub texts: Vec<String>,
    /// loop index -> (inv raw idx, body-start raw idx, body-end raw idx)
    pub inv: &'a HashMap<usize, usize>,
    pub body_start: &'a HashMap<usize, usize>,
    pub body_end: &'a HashMap<usize, usize>,
}
impl<'a> Loops<'a> {
    fn body(&mut self, k: usize, b: &mut Block) {
        if let Some(r) = self.body_start.get(&k) {
            let l = Literal(*r);
            b.stmts.insert(0, parse_quote!(__vx_raw!{#l};));
        }
        if let Some(r) = self.body_end.get(&k) {
            let l = Literal(*r);
            b.stmts.push(parse_quote!(__vx_raw!{#l};));
        }
        if let Some(r) = self.inv.get(&k) {
            let l = Literal(*r);
            b.stmts.insert(0, parse_quote!(__vx_inv!{#l};));
        }
    }
}
struct Literal(usize);
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) {
        t.extend([proc_macro2::TokenTree::Literal(proc_macro2::Literal::usize_unsuffixed(self.0))]);
    }
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            self.texts.push(e.to_token_stream().to_string());
        }
        match e {
            Expr::ForLoop(f) => {
                let k = self.count;
                self.count += 1;
                self.kinds.push(true);
                let it = ident(&format!("it{k}"));
                let ex = &f.expr;
                f.expr = Box::new(Expr::Verbatim(quote!(__vx_it!{#it} #ex)));
                visit_mut::visit_block_mut(self, &mut f.body);
                self.body(k, &mut f.body);
                return;
            }
            Expr::While(f) => {
                let k = self.count;
                self.count += 1;
                self.kinds.push(false);
                visit_mut::visit_block_mut(self, &mut f.body);
                self.body(k, &mut f.body);
                return;
            }
            Expr::Loop(f) => {
                let k = self.count;
                self.count += 1;
                self.kinds.push(false);
                visit_mut::visit_block_mut(self, &mut f.body);
                self.body(k, &mut f.body);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
