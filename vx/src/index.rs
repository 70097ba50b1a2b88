//! Index of the items of an expanded crate.
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub module: String,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub in_trait_decl: bool,
    pub sig: Signature,
    pub block: Option<Block>,
}

pub struct Crate {
    pub items: Vec<(String, Item)>,
    pub fns: HashMap<String, Vec<FnDef>>,
}

pub fn last_seg(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}
pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => last_seg(&p.path),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Paren(p) => ty_name(&p.elem),
        Type::Group(p) => ty_name(&p.elem),
        o => o.to_token_stream().to_string(),
    }
}

impl Crate {
    pub fn load(path: &str) -> Crate {
        let src = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let file = syn::parse_file(&src).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut c = Crate { items: vec![], fns: HashMap::new() };
        c.walk("", file.items);
        c
    }
    fn walk(&mut self, m: &str, items: Vec<Item>) {
        for it in items {
            match it {
                Item::Mod(md) => {
                    let name = if m.is_empty() { md.ident.to_string() } else { format!("{m}::{}", md.ident) };
                    if let Some((_, its)) = md.content {
                        self.walk(&name, its);
                    }
                }
                mut it => {
                    // functions inside functions
                    if let Item::Fn(f) = &mut it {
                        let nested: Vec<Item> = f.block.stmts.iter().filter_map(|s| match s { Stmt::Item(Item::Fn(g)) => Some(Item::Fn(g.clone())), _ => None }).collect();
                        f.block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Fn(_))));
                        self.walk(m, nested);
                    }
                    self.index(m, &it);
                    self.items.push((m.to_string(), it));
                }
            }
        }
    }
    fn add(&mut self, f: FnDef) {
        self.fns.entry(f.sig.ident.to_string()).or_default().push(f);
    }
    fn index(&mut self, m: &str, it: &Item) {
        match it {
            Item::Fn(f) => self.add(FnDef {
                module: m.into(),
                self_ty: None,
                trait_: None,
                in_trait_decl: false,
                sig: f.sig.clone(),
                block: Some((*f.block).clone()),
            }),
            Item::Impl(i) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        self.add(FnDef {
                            module: m.into(),
                            self_ty: Some(ty_name(&i.self_ty)),
                            trait_: i.trait_.as_ref().map(|t| last_seg(&t.1)),
                            in_trait_decl: false,
                            sig: f.sig.clone(),
                            block: Some(f.block.clone()),
                        });
                    }
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        self.add(FnDef {
                            module: m.into(),
                            self_ty: None,
                            trait_: Some(t.ident.to_string()),
                            in_trait_decl: true,
                            sig: f.sig.clone(),
                            block: f.default.clone(),
                        });
                    }
                }
            }
            _ => {}
        }
    }
    /// Free functions, anywhere (refactorings move things between modules).
    pub fn free_fn(&self, name: &str) -> Vec<&FnDef> {
        self.fns
            .get(name)
            .map(|v| v.iter().filter(|f| f.self_ty.is_none() && f.trait_.is_none()).collect())
            .unwrap_or_default()
    }
    pub fn method(&self, ty: &str, name: &str) -> Option<&FnDef> {
        self.fns.get(name)?.iter().find(|f| f.trait_.is_none() && f.self_ty.as_deref() == Some(ty))
    }
    pub fn inherent_methods(&self, name: &str) -> Vec<&FnDef> {
        self.fns
            .get(name)
            .map(|v| v.iter().filter(|f| f.trait_.is_none() && f.self_ty.is_some()).collect())
            .unwrap_or_default()
    }
    pub fn item(&self, name: &str) -> Option<&Item> {
        self.items.iter().map(|x| &x.1).find(|i| match i {
            Item::Struct(s) => s.ident == name,
            Item::Enum(s) => s.ident == name,
            Item::Type(s) => s.ident == name,
            Item::Const(s) => s.ident == name,
            Item::Static(s) => s.ident == name,
            Item::Trait(s) => s.ident == name,
            _ => false,
        })
    }
    pub fn impls(&self, tr: Option<&str>, ty: &str) -> Vec<&ItemImpl> {
        self.items
            .iter()
            .filter_map(|x| match &x.1 {
                Item::Impl(i)
                    if ty_name(&i.self_ty) == ty
                        && i.trait_.as_ref().map(|t| last_seg(&t.1)).as_deref() == tr =>
                {
                    Some(i)
                }
                _ => None,
            })
            .collect()
    }
}
