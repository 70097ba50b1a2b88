//! Reads back the types a derived parser consists of, as expressions.
use crate::grammar::{Args, X};
use proc_macro2::TokenStream;
use std::collections::{BTreeMap, HashMap};
use syn::{Expr, GenericArgument, Item, Lit, PathArguments, Type};

#[derive(Clone, Debug)]
pub struct GRule { pub name: String, pub args: Vec<String>, pub expr: X, pub boxed: bool, pub inner: Vec<X>, pub pairs: bool }
#[derive(Clone, Debug, Default)]
pub struct GMod { pub rules: Vec<GRule>, pub variants: Vec<String>, pub opt: Option<X>, pub man: Option<X>, pub subs: BTreeMap<String, GMod> }
#[derive(Clone, Debug, Default)]
pub struct Gen { pub root: GMod }

fn raw(s: String) -> String { s.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(s) }
fn int(e: &Expr) -> isize {
    match e {
        Expr::Lit(l) => match &l.lit { Lit::Int(i) => i.base10_parse().unwrap(), _ => panic!("integer expected") },
        Expr::Unary(u) => -int(&u.expr),
        Expr::Group(g) => int(&g.expr),
        Expr::Paren(g) => int(&g.expr),
        Expr::Block(b) => match &b.block.stmts[..] { [syn::Stmt::Expr(e, None)] => int(e), _ => panic!("integer expected") },
        _ => panic!("integer expected"),
    }
}
fn chr(e: &Expr) -> char { match e { Expr::Lit(l) => match &l.lit { Lit::Char(c) => c.value(), _ => panic!("character expected") }, Expr::Group(g) => chr(&g.expr), _ => panic!("character expected") } }
enum A<'t> { T(&'t Type), E(&'t Expr) }
impl<'t> A<'t> {
    fn int(&self) -> isize { match self { A::E(e) => int(e), A::T(_) => panic!("integer argument expected") } }
    fn chr(&self) -> char { match self { A::E(e) => chr(e), A::T(_) => panic!("character argument expected") } }
    fn ty(&self) -> &'t Type { match self { A::T(t) => t, A::E(_) => panic!("type argument expected") } }
}
fn path(t: &Type) -> Option<(Vec<String>, Vec<A<'_>>)> {
    match t {
        Type::Group(g) => path(&g.elem),
        Type::Paren(g) => path(&g.elem),
        Type::Path(p) => {
            let segs = p.path.segments.iter().map(|s| raw(s.ident.to_string())).collect();
            let mut args = vec![];
            for s in &p.path.segments { if let PathArguments::AngleBracketed(a) = &s.arguments { for x in &a.args { match x {
                GenericArgument::Type(t) => args.push(A::T(t)), GenericArgument::Const(e) => args.push(A::E(e)), GenericArgument::Lifetime(_) => {}, _ => panic!("odd generic argument"),
            } } } }
            Some((segs, args))
        }
        _ => None,
    }
}
pub struct Ctx<'a> { pub words: &'a HashMap<String, String>, pub args: Vec<String> }
impl Ctx<'_> {
    fn trivia(&self, t: &Type) -> char {
        match path(t).map(|p| p.0.last().unwrap().clone()).as_deref() { Some("Empty") => '-', Some("__OptionalTrivia") => '~', Some("__MandatoryTrivia") => '^', _ => panic!("trivia type expected") }
    }
    fn word(&self, t: &Type) -> String { let p = path(t).unwrap().0; self.words.get(p.last().unwrap()).unwrap_or_else(|| panic!("no constant {p:?}")).clone() }
    pub fn expr(&self, t: &Type) -> X {
        let (p, a) = path(t).unwrap_or_else(|| panic!("path type expected"));
        let last = p.last().unwrap().as_str();
        let b = |i: usize| Box::new(self.expr(a[i].ty()));
        let tail: Vec<&str> = p.iter().rev().take(2).map(|s| s.as_str()).collect();
        if p.len() == 1 && a.is_empty() && self.args.contains(&p[0]) { return X::Path(p, Args::None) }
        match (last, tail.get(1).copied()) {
            ("Option", Some("std")) => return X::Opt(b(0)),
            ("Empty", Some("template")) => return X::Str(String::new()),
            ("Box", Some("std")) => return self.expr(a[0].ty()),
            (u, Some("unicode")) => return X::Path(vec!["pest".into(), "unicode".into(), u.to_lowercase()], Args::None),
            ("__OptionalTrivia", None) | ("__MandatoryTrivia", None) => panic!("trivia in place of an operand"),
            (_, Some("generics")) => {}
            _ => {
                // a rule of this module or (`sub::rules::name`) of an imported one
                let mut q: Vec<String> = vec![];
                for (i, s) in p.iter().enumerate() { if i % 2 == 1 && i + 1 < p.len() { assert_eq!(s, "rules", "odd rule path {p:?}") } else { q.push(s.clone()) } }
                let args = if a.is_empty() { Args::None } else { Args::Call(a.iter().map(|x| self.expr(x.ty())).collect()) };
                return X::Path(q, args);
            }
        }
        let num = |p: &str| last.strip_prefix(p).and_then(|n| n.parse::<usize>().ok());
        if let Some(n) = num("Sequence") {
            assert_eq!(a.len(), 2 * n, "arity of {last}");
            return X::Seq((0..n).map(|i| (self.trivia(a[2 * i + 1].ty()), *b(2 * i))).collect());
        }
        if let Some(n) = num("Choice") { assert_eq!(a.len(), n, "arity of {last}"); return X::Choice((0..n).map(|i| *b(i)).collect()) }
        let pest = |v: &[&str]| -> Vec<String> { std::iter::once("pest").chain(v.iter().copied()).map(|s| s.to_string()).collect() };
        match last {
            "Str" => X::Str(self.word(a[0].ty())),
            "Insens" => X::Ins(self.word(a[0].ty())),
            "CharRange" => X::Range(a[0].chr(), a[1].chr()),
            "Positive" => X::Pos(b(0)),
            "Negative" => X::Neg(b(0)),
            "Rep" => X::Rep(0, usize::MAX, b(0), self.trivia(a[1].ty())),
            "RepOnce" => X::Rep(1, usize::MAX, b(0), self.trivia(a[1].ty())),
            "RepMin" => X::Rep(a[2].int() as usize, usize::MAX, b(0), self.trivia(a[1].ty())),
            "RepMax" => X::Rep(0, a[2].int() as usize, b(0), self.trivia(a[1].ty())),
            "RepMinMax" => X::Rep(a[2].int() as usize, a[3].int() as usize, b(0), self.trivia(a[1].ty())),
            "PeekSlice1" => X::Path(pest(&["stack", "peek"]), Args::Slice(Some(a[0].int()), None)),
            "PeekSlice2" => X::Path(pest(&["stack", "peek"]), Args::Slice(Some(a[0].int()), Some(a[1].int()))),
            "push" => X::Path(pest(&["stack", "push"]), Args::Call(vec![*b(0)])),
            "peek" | "peek_all" | "pop" | "pop_all" | "drop" => X::Path(pest(&["stack", last]), Args::None),
            "soi" | "eoi" | "any" | "newline" | "ascii" | "ascii_digit" | "ascii_nonzero_digit" | "ascii_bin_digit" | "ascii_oct_digit" | "ascii_hex_digit" | "ascii_alpha_lower" | "ascii_alpha_upper" | "ascii_alpha" | "ascii_alphanumeric" => X::Path(pest(&[last]), Args::None),
            _ => panic!("unknown type generics::{last}"),
        }
    }
}
fn words(items: &[Item], w: &mut HashMap<String, String>) {
    for i in items {
        if let Item::Impl(m) = i {
            let Type::Path(p) = &*m.self_ty else { continue };
            for x in &m.items { if let syn::ImplItem::Const(c) = x { if c.ident == "CONTENT" { if let Expr::Lit(l) = &c.expr { if let Lit::Str(s) = &l.lit {
                let old = w.insert(p.path.segments.last().unwrap().ident.to_string(), s.value());
                assert!(old.is_none(), "constant defined twice");
            } } } } }
        }
    }
}
struct RuleStruct { name: String, inner: Type, content: Type }
impl syn::parse::Parse for RuleStruct {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let n: syn::Ident = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let g; syn::parenthesized!(g in i); let _: TokenStream = g.parse()?;
        i.parse::<syn::Token![,]>()?;
        i.parse::<Type>()?; i.parse::<syn::Token![,]>()?;
        i.parse::<Expr>()?; i.parse::<syn::Token![,]>()?;
        let inner = i.parse()?; i.parse::<syn::Token![,]>()?;
        let content = i.parse()?; let _: TokenStream = i.parse()?;
        Ok(RuleStruct { name: raw(n.to_string()), inner, content })
    }
}
fn is_box(t: &Type) -> bool { path(t).map_or(false, |p| p.0.last().unwrap() == "Box") }
fn module(items: &[Item], w: &HashMap<String, String>) -> GMod {
    let mut m = GMod::default();
    let plain = Ctx { words: w, args: vec![] };
    for i in items {
        match i {
            Item::Enum(e) if e.ident == "Rule" => m.variants = e.variants.iter().map(|v| raw(v.ident.to_string())).collect(),
            Item::Mod(x) if x.ident == "rules" => {
                let items = &x.content.as_ref().unwrap().1;
                let mut pairs: Vec<String> = vec![];
                let mut inner: Vec<(String, X)> = vec![];
                for i in items {
                    match i {
                        Item::Struct(s) => {
                            let args: Vec<String> = s.generics.type_params().map(|p| raw(p.ident.to_string())).collect();
                            let f = s.fields.iter().find(|f| f.ident.as_ref().map_or(false, |n| n == "content")).expect("content field");
                            let cx = Ctx { words: w, args: args.clone() };
                            m.rules.push(GRule { name: raw(s.ident.to_string()), args, expr: cx.expr(&f.ty), boxed: is_box(&f.ty), inner: vec![], pairs: false });
                        }
                        Item::Type(t) if t.ident == "__OptionalTrivia" => m.opt = Some(plain.expr(&t.ty)),
                        Item::Type(t) if t.ident == "__MandatoryTrivia" => m.man = Some(plain.expr(&t.ty)),
                        Item::Mod(s) => { m.subs.insert(raw(s.ident.to_string()), module(&s.content.as_ref().unwrap().1, w)); }
                        Item::Macro(x) if x.mac.path.segments.last().unwrap().ident == "full_rule_struct" => {
                            let r: RuleStruct = syn::parse2(x.mac.tokens.clone()).expect("full_rule_struct arguments");
                            let args = m.rules.iter().find(|g| g.name == r.name).expect("struct before its impls").args.clone();
                            let cx = Ctx { words: w, args };
                            inner.push((r.name.clone(), cx.expr(&r.inner)));
                            inner.push((r.name, cx.expr(&r.content)));
                        }
                        Item::Impl(x) => if let Some((_, t, _)) = &x.trait_ {
                            if t.segments.last().unwrap().ident == "PairTree" { if let Some((p, _)) = path(&x.self_ty) { pairs.push(p.last().unwrap().clone()) } }
                        },
                        _ => {}
                    }
                }
                for r in &mut m.rules {
                    r.pairs = pairs.contains(&r.name);
                    r.inner = inner.iter().filter(|x| x.0 == r.name).map(|x| x.1.clone()).collect();
                }
            }
            _ => {}
        }
    }
    m
}
pub fn read(ts: TokenStream) -> Gen {
    let f: syn::File = syn::parse2(ts).expect("generated code does not parse");
    let mut w = HashMap::new();
    for i in &f.items { if let Item::Mod(m) = i { if m.ident == "wrapper" { words(&m.content.as_ref().unwrap().1, &mut w) } } }
    Gen { root: module(&f.items, &w) }
}
