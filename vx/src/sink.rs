//! Callback parameters `f: &mut impl FnMut(X)` become recording sinks: calling `f(x)` records `x`,
//! and a closure passed for such a parameter is run over the recorded values afterwards. The callee
//! can do nothing with its callback but call it or pass it on, so the sequence of recorded values is
//! all that it decides.
use crate::index::{last_seg, FnDef};
use crate::rewrite::ident;
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// X of `&mut impl FnMut(X)`
fn sink_ty(t: &Type) -> Option<Type> {
    let Type::Reference(r) = t else { return None };
    r.mutability?;
    let Type::ImplTrait(it) = &*r.elem else { return None };
    if it.bounds.len() != 1 {
        return None;
    }
    let TypeParamBound::Trait(tb) = &it.bounds[0] else { return None };
    if last_seg(&tb.path) != "FnMut" {
        return None;
    }
    let PathArguments::Parenthesized(pa) = &tb.path.segments.last().unwrap().arguments else { return None };
    if pa.inputs.len() != 1 || !matches!(pa.output, ReturnType::Default) {
        return None;
    }
    Some(pa.inputs[0].clone())
}

pub fn apply(def: &FnDef, methods: &HashSet<String>) -> FnDef {
    let mut d = def.clone();
    if methods.is_empty() {
        return d;
    }
    let mut names = HashSet::new();
    for a in d.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(p), Some(x)) = (&*t.pat, sink_ty(&t.ty)) {
                names.insert(p.ident.to_string());
                t.ty = Box::new(parse_quote!(&mut VxSink<#x>));
            }
        }
    }
    if let Some(b) = &mut d.block {
        let mut s = Sinks { names, methods, n: 0 };
        s.visit_block_mut(b);
    }
    d
}

struct Sinks<'a> {
    names: HashSet<String>,
    methods: &'a HashSet<String>,
    n: usize,
}
impl<'a> Sinks<'a> {
    /// the closure argument of a call to a sink-taking method
    fn closure_arg(&self, args: &mut punctuated::Punctuated<Expr, Token![,]>, k: usize) -> Option<ExprClosure> {
        for a in args.iter_mut() {
            if let Expr::Reference(r) = a {
                if r.mutability.is_some() {
                    if let Expr::Closure(c) = &*r.expr {
                        if c.inputs.len() == 1 {
                            let c = c.clone();
                            let v = ident(&format!("vx_sink{k}"));
                            *a = parse_quote!(&mut #v);
                            return Some(c);
                        }
                    }
                }
            }
        }
        None
    }
}
impl<'a> VisitMut for Sinks<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let k = self.n;
        let got = match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident() {
                        if self.names.contains(&i.to_string()) && c.args.len() == 1 {
                            let (i, x) = (i.clone(), c.args[0].clone());
                            *e = parse_quote!(#i.put(#x));
                            return;
                        }
                    }
                    if self.methods.contains(&last_seg(&p.path)) {
                        self.closure_arg(&mut c.args, k)
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::MethodCall(m) if self.methods.contains(&m.method.to_string()) => self.closure_arg(&mut m.args, k),
            _ => None,
        };
        if let Some(c) = got {
            self.n += 1;
            let v = ident(&format!("vx_sink{k}"));
            let (pat, body) = (&c.inputs[0], &c.body);
            let pat: Pat = match pat {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            *e = parse_quote!({ let mut #v = VxSink::new(); #e; for #pat in #v.v { #body; } });
        }
    }
}
