mod index;
mod print;
mod rewrite;
mod sink;
use index::*;
use print::Printer;
use quote::{quote, ToTokens};
use rewrite::*;
use std::collections::{HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
struct Contract {
    contract: String,
    ret: Option<String>,
    start: String,
    inv: HashMap<usize, String>,
    halts: bool,
    bstart: HashMap<usize, String>,
    bend: HashMap<usize, String>,
    allow_any_loops: bool,
    external: bool,
    noiso: bool,
}

struct Out {
    text: String,
    map: Vec<String>, // json entries
    degraded: HashSet<String>,
    assume: bool,
    errors: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Out {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
}

struct Cx<'a> {
    sinks: HashSet<String>,
    /// provided methods verified per implementation
    inst: HashSet<String>,
    crates: &'a HashMap<String, Crate>,
    cfg: Cfg,
    prologue: HashMap<String, String>,
}

fn rw<'a>(c: &'a Crate, cfg: &'a Cfg, self_ty: Option<String>) -> Rw<'a> {
    Rw { krate: c, cfg, self_ty, refs: HashSet::new(), issues: vec![], inlined: vec![], fresh: 0, outs: 0, stack: vec![], halts: false }
}

fn emit_sig(sig: &Signature, vis: &str, ret: &str, c: &Crate, cfg: &Cfg) -> String {
    let mut sig = sig.clone();
    let mut r = rw(c, cfg, None);
    r.visit_signature_mut(&mut sig);
    for a in sig.inputs.iter_mut() {
        if let FnArg::Receiver(rc) = a { if rc.reference.is_none() { rc.mutability = None } }
    }
    let un = if sig.unsafety.is_some() { "unsafe " } else { "" };
    let cn = if sig.constness.is_some() { "const " } else { "" };
    let name = &sig.ident;
    let gen = &sig.generics;
    let (wh, genp) = (gen.where_clause.clone(), gen.params.clone());
    let inputs = &sig.inputs;
    let mut p = Printer::new(&[]);
    if genp.is_empty() {
        p.print(quote!(fn #name(#inputs)));
    } else {
        p.print(quote!(fn #name < #genp > (#inputs)));
    }
    let mut s = format!("{vis}{cn}{un}{}", p.out);
    if let ReturnType::Type(_, t) = &sig.output {
        let mut p = Printer::new(&[]);
        p.print(t.to_token_stream());
        if matches!(**t, Type::Never(_)) {
            s.push_str(" -> !");
        } else {
            s.push_str(&format!(" -> ({}: {})", ret, p.out.trim()));
        }
    }
    if let Some(w) = wh {
        let mut p = Printer::new(&[]);
        p.print(w.to_token_stream());
        s.push_str(&format!("\n{}", p.out));
    }
    s
}

/// Emit one function with its contract.
fn emit_fn(
    out: &mut Out,
    cx: &Cx,
    krate: &Crate,
    id: &str,
    def: &FnDef,
    vis: &str,
    con: Option<&Contract>,
    extract: bool,
) {
    let def = &sink::apply(def, &cx.sinks);
    let d = Contract::default();
    let has_contract = con.is_some();
    let con = con.unwrap_or(&d);
    let ret = con.ret.clone().unwrap_or("r".into());
    let mut issues: Vec<String> = vec![];
    let mut inlined: Vec<String> = vec![];
    let mut body_txt = String::new();
    let mut nloops = 0;
    let mut src_txt = String::new();
    if let Some(b) = &def.block {
        src_txt = def.sig.to_token_stream().to_string() + &b.to_token_stream().to_string();
        let mut b = b.clone();
        let mut r = rw(krate, &cx.cfg, def.self_ty.clone());
        r.halts = con.halts;
        for a in &def.sig.inputs {
            match a {
                FnArg::Typed(t) => {
                    if let (Pat::Ident(p), Type::Reference(rf)) = (&*t.pat, &*t.ty) {
                        if rf.mutability.is_some() {
                            r.refs.insert(p.ident.to_string());
                        }
                    }
                }
                FnArg::Receiver(rc) => {
                    if rc.mutability.is_some() && rc.reference.is_some() {
                        r.refs.insert("self".into());
                    }
                }
            }
        }
        r.visit_block_mut(&mut b);
        if def.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(rc) if rc.mutability.is_some() && rc.reference.is_none())) {
            // `mut self`: a mutable local in its place
            let t = rename_self(b.to_token_stream());
            b = syn::parse2(t).unwrap();
            b.stmts.insert(0, syn::parse_quote!(let mut vx_self = self;));
        }
        issues.extend(r.issues);
        inlined = r.inlined;
        // raw insertions
        let mut raws: Vec<String> = vec![];
        let mut put = |m: &HashMap<usize, String>| {
            let mut o = HashMap::new();
            for (k, v) in m {
                raws.push(v.clone());
                o.insert(*k, raws.len() - 1);
            }
            o
        };
        let (i, s, e) = (put(&con.inv), put(&con.bstart), put(&con.bend));
        let mut l = Loops { count: 0, kinds: vec![], texts: vec![], inv: &i, body_start: &s, body_end: &e };
        l.visit_block_mut(&mut b);
        nloops = l.count;
        // a `for` contract speaks of its iterator, a `while` contract of a measure
        for (k, inv) in &con.inv {
            if let Some(is_for) = l.kinds.get(*k) {
                let wants_for = inv.contains(&format!("it{k}"));
                if wants_for != *is_for && (wants_for || inv.contains("decreases")) {
                    issues.push(format!("loop {k} is no longer of the kind its contract annotates"));
                }
            }
        }
        // what a loop counts down is something that the loop speaks of
        for (k, inv) in &con.inv {
            let (Some(text), Some(at)) = (l.texts.get(*k), inv.find("decreases")) else { continue };
            let own = [&con.bstart, &con.bend].iter().filter_map(|m| m.get(k)).fold(text.clone(), |a, b| a + " " + b);
            let names = |s: &str| s.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(String::from).collect::<HashSet<_>>();
            let measure: HashSet<String> = names(&inv[at + "decreases".len()..]).into_iter().filter(|w| w != "len" && !w.starts_with(|c: char| c.is_ascii_digit())).collect();
            if !measure.is_empty() && measure.is_disjoint(&names(&own)) {
                issues.push(format!("loop {k} no longer speaks of what its contract counts down"));
            }
        }
        let mut lits = vec![];
        literals(b.to_token_stream(), &mut lits);
        let reveals: String = lits.iter().map(|l| format!("reveal_strlit({l}); ")).collect();
        let mut p = Printer::new(&raws);
        p.print(b.to_token_stream());
        body_txt = p.out;
        if !con.start.is_empty() {
            let ix = body_txt.find('{').unwrap();
            body_txt.insert_str(ix + 1, &format!("\n{}\n", con.start));
        }
        if let Some(pr) = cx.prologue.get("*") {
            let ix = body_txt.find('{').unwrap();
            body_txt.insert_str(ix + 1, &format!("\n{pr}\n"));
        }
        if let (Some(t), false) = (&def.trait_, def.in_trait_decl) {
            if let Some(pr) = cx.prologue.get(t) {
                let ix = body_txt.find('{').unwrap();
                body_txt.insert_str(ix + 1, &format!("\n{pr}\n"));
            }
        }
        let want = con.inv.keys().max().map_or(0, |m| m + 1);
        body_txt = body_txt.replace("vx_reveal_literals!();", &reveals);
        if nloops != want && !con.allow_any_loops {
            issues.push(format!("loop structure changed: {nloops} loops, contract annotates {want}"));
        }
    }
    let start = out.line();
    let forced = out.degraded.contains(id);
    let assumed = out.assume && def.block.is_some() && !con.external;
    let degr = !assumed && def.block.is_some() && !con.external && (forced || !issues.is_empty());
    let external = degr || con.external || assumed;
    let sig = emit_sig(&def.sig, vis, &ret, krate, &cx.cfg);
    if external && def.block.is_some() {
        out.text.push_str("#[verifier::external_body]\n");
    }
    if con.noiso && !external {
        out.text.push_str("#[verifier::loop_isolation(false)]\n");
    }
    if con.halts && !external {
        out.text.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    out.text.push_str(&sig);
    out.text.push('\n');
    out.text.push_str(&con.contract);
    if !out.text.ends_with('\n') {
        out.text.push('\n');
    }
    match &def.block {
        None => out.text.push_str(";\n"),
        Some(_) if external => out.text.push_str("{ unimplemented!() }\n"),
        Some(_) => out.text.push_str(&body_txt),
    }
    if !out.text.ends_with('\n') {
        out.text.push('\n');
    }
    let end = out.line() - 1;
    let reason = if forced { "rejected by the verifier front end".to_string() } else { issues.join("; ") };
    out.map.push(format!(
        "{{\"id\":{},\"start\":{start},\"end\":{end},\"body\":{},\"contract\":{},\"degraded\":{},\"assumed\":{assumed},\"external\":{},\"reason\":{},\"inlined\":[{}],\"loops\":{nloops},\"tokens\":{},\"extracted\":{}}}",
        esc(id),
        def.block.is_some(),
        has_contract,
        degr,
        con.external,
        esc(&reason),
        inlined.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        src_txt.split_whitespace().count(),
        extract,
    ));
}

fn parse_contract(lines: &[&str]) -> Contract {
    let mut c = Contract::default();
    let mut sec = "contract".to_string();
    for l in lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "loop" | "loopstart" | "loopend" => sec = format!("{} {}", w[0], w[1]),
                "start" => sec = "start".into(),
                "anyloops" => c.allow_any_loops = true,
                "external" => c.external = true,
                "noiso" => c.noiso = true,
                "halts" => c.halts = true,
                "ret" => c.ret = Some(w[1].to_string()),
                x => panic!("unknown directive {x}"),
            }
            if let Some(k) = sec.strip_prefix("loop ") {
                c.inv.entry(k.parse().unwrap()).or_default();
            }
            continue;
        }
        let w: Vec<&str> = sec.split_whitespace().collect();
        let dst = match w[0] {
            "contract" => &mut c.contract,
            "start" => &mut c.start,
            "loop" => c.inv.entry(w[1].parse().unwrap()).or_default(),
            "loopstart" => c.bstart.entry(w[1].parse().unwrap()).or_default(),
            "loopend" => c.bend.entry(w[1].parse().unwrap()).or_default(),
            _ => unreachable!(),
        };
        dst.push_str(l);
        dst.push('\n');
    }
    c
}

fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    ts.into_iter().map(|t| match t {
        proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_self(g.stream()))),
        proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(proc_macro2::Ident::new("vx_self", i.span())),
        t => t,
    }).collect()
}
/// the string literals of a body
fn literals(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => literals(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                let l = l.to_string();
                if l.starts_with('"') && !out.contains(&l) { out.push(l) }
            }
            _ => {}
        }
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut crates = HashMap::new();
    let (mut skel, mut outp, mut mapp) = (String::new(), String::new(), String::new());
    let mut degraded = HashSet::new();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--src" => {
                let (n, p) = args[i + 1].split_once('=').unwrap();
                crates.insert(n.to_string(), Crate::load(p));
            }
            "--skel" => skel = std::fs::read_to_string(&args[i + 1]).unwrap(),
            "--out" => outp = args[i + 1].clone(),
            "--map" => mapp = args[i + 1].clone(),
            "--degrade" => {
                for l in std::fs::read_to_string(&args[i + 1]).unwrap().lines() {
                    if !l.trim().is_empty() {
                        degraded.insert(l.trim().to_string());
                    }
                }
            }
            x => panic!("arg {x}"),
        }
        i += 2;
    }
    let lines: Vec<&str> = skel.lines().collect();
    // `//@link a b`: functions of crate b are called from crate a
    for l in &lines {
        let w: Vec<&str> = l.trim().split_whitespace().collect();
        if w.first() == Some(&"//@link") && crates.contains_key(w[1]) && crates.contains_key(w[2]) {
            let fns = crates[w[2]].fns.clone();
            let c: &mut Crate = crates.get_mut(w[1]).unwrap();
            for (k, v) in fns {
                c.fns.entry(k).or_default().extend(v);
            }
        }
    }
    // pass 1: configuration and contracted names
    let mut cfg = Cfg {
        contracted: HashSet::new(),
        renames: HashMap::new(),
        paths: HashMap::new(),
        modules: HashSet::new(),
        idents: HashMap::new(),
        inline: HashSet::new(),
    };
    let mut cur_ty: Option<String> = None;
    let mut prologue: HashMap<String, String> = HashMap::new();
    let mut sinks: HashSet<String> = HashSet::new();
    let mut inst: HashSet<String> = HashSet::new();
    for l in &lines {
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@") else { continue };
        let w: Vec<&str> = d.split_whitespace().collect();
        match w[0] {
            "rename" => {
                cfg.renames.insert((w[1].into(), w[2].parse().unwrap()), w[3].into());
            }
            "path" => {
                cfg.paths.insert(w[1].into(), w[2].into());
            }
            "instantiate" => inst.extend(w[1..].iter().map(|s| s.to_string())),
            "sink" => sinks.extend(w[1..].iter().map(|s| s.to_string())),
            "modules" => cfg.modules.extend(w[1..].iter().map(|s| s.to_string())),
            "ident" => {
                cfg.idents.insert(w[1].into(), w[2].into());
            }
            "prologue" => {
                let rest = d.splitn(3, ' ').nth(2).unwrap_or("");
                let e: &mut String = prologue.entry(w[1].to_string()).or_default();
                e.push_str(rest);
                e.push('\n');
            }
            "inline" => cfg.inline.extend(w[1..].iter().map(|s| s.to_string())),
            "known" => cfg.contracted.extend(w[1..].iter().map(|s| s.to_string())),
            "open" => {
                // open <src> impl Type | open <src> impl Trait for Type | open <src> trait Name
                cur_ty = match w[2] {
                    "impl" if w.get(4) == Some(&"for") => None,
                    "impl" => Some(w[3].to_string()),
                    _ => None,
                };
            }
            "fn" => {
                if let Some(t) = &cur_ty {
                    cfg.contracted.insert(format!("{t}::{}", w[1]));
                }
            }
            "close" => cur_ty = None,
            "free" => {
                cfg.contracted.insert(w[2].to_string());
            }
            _ => {}
        }
    }
    let cx = Cx { inst, sinks, crates: &crates, cfg, prologue };
    let mut out = Out { text: String::new(), map: vec![], degraded, assume: false, errors: vec![] };
    // pass 2
    let mut i = 0;
    struct Open<'a> {
        src: String,
        items: Vec<FnDef>,
        others: Vec<String>,
        only_listed: bool,
        prefix: String,
        vis: &'static str,
        done: HashSet<String>,
        _p: std::marker::PhantomData<&'a ()>,
    }
    let mut open: Option<Open> = None;
    let block_end = |mut j: usize| {
        while j < lines.len() {
            let t = lines[j].trim();
            if let Some(d) = t.strip_prefix("//@") {
                let w = d.split_whitespace().next().unwrap_or("");
                if !matches!(w, "loop" | "loopstart" | "loopend" | "start" | "anyloops" | "external" | "noiso" | "halts" | "ret") {
                    break;
                }
            }
            j += 1;
        }
        j
    };
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@") else {
            // lemmas of an assumed unit are proved when that unit is verified
            if out.assume && ["pub proof fn", "proof fn", "pub broadcast proof fn"].iter().any(|x| t.starts_with(x)) {
                out.text.push_str("#[verifier::external_body]\n");
            }
            out.text.push_str(l);
            out.text.push('\n');
            i += 1;
            continue;
        };
        let w: Vec<&str> = d.split_whitespace().collect();
        match w[0] {
            "assume" => out.assume = w[1] == "on",
            "rename" | "instantiate" | "sink" | "path" | "modules" | "ident" | "known" | "inline" | "end" | "prologue" | "link" => {}
            "item" => {
                let c = &cx.crates[w[1]];
                match c.item(w[2]) {
                    None => out.errors.push(format!("item {} not found", w[2])),
                    Some(it) => {
                        let mut it = it.clone();
                        let mut r = rw(c, &cx.cfg, None);
                        r.visit_item_mut(&mut it);
                        match &mut it {
                            Item::Struct(s) => {
                                s.attrs.clear();
                                s.vis = parse_quote!(pub);
                                for f in s.fields.iter_mut() {
                                    f.vis = parse_quote!(pub);
                                    f.attrs.clear();
                                }
                                if let Some(n) = cx.cfg.idents.get(&s.ident.to_string()) {
                                    s.ident = ident(n);
                                }
                            }
                            Item::Enum(s) => {
                                s.attrs.clear();
                                s.vis = parse_quote!(pub);
                                for v in s.variants.iter_mut() {
                                    v.attrs.clear();
                                }
                            }
                            Item::Type(s) => {
                                s.attrs.clear();
                                s.vis = parse_quote!(pub);
                            }
                            Item::Const(s) => {
                                s.attrs.clear();
                                s.vis = parse_quote!(pub);
                            }
                            _ => {}
                        }
                        let mut p = Printer::new(&[]);
                        p.print(it.to_token_stream());
                        out.text.push_str(&p.out);
                        out.text.push('\n');
                    }
                }
            }
            "open" => {
                let src = w[1].to_string();
                let c = &cx.crates[w[1]];
                let only_listed = w.contains(&"listed");
                let as_tr = w.iter().find_map(|x| x.strip_prefix("as="));
                let has = w.iter().find_map(|x| x.strip_prefix("has="));
                if w[2] == "trait" {
                    let Some(Item::Trait(tr)) = c.item(w[3]) else {
                        out.errors.push(format!("trait {} not found", w[3]));
                        i += 1;
                        continue;
                    };
                    let mut tr = tr.clone();
                    let mut r = rw(c, &cx.cfg, None);
                    r.visit_generics_mut(&mut tr.generics);
                    for b in tr.supertraits.iter_mut() {
                        r.visit_type_param_bound_mut(b);
                    }
                    let mut fns = vec![];
                    let mut others = vec![];
                    for it in &tr.items {
                        match it {
                            TraitItem::Fn(f) => fns.push(FnDef {
                                module: "".into(),
                                self_ty: None,
                                trait_: Some(tr.ident.to_string()),
                                in_trait_decl: true,
                                sig: f.sig.clone(),
                                block: if cx.inst.contains(&f.sig.ident.to_string()) { None } else { f.default.clone() },
                            }),
                            o => {
                                let mut o = o.clone();
                                r.visit_trait_item_mut(&mut o);
                                let mut p = Printer::new(&[]);
                                p.print(o.to_token_stream());
                                others.push(p.out)
                            }
                        }
                    }
                    let mut name = tr.ident.clone();
                    if let Some(n) = cx.cfg.idents.get(&name.to_string()) {
                        name = ident(n);
                    }
                    let no_where = None;
                    let (gp, wh) = (&tr.generics.params, if w.contains(&"nowhere") { &no_where } else { &tr.generics.where_clause });
                    let sup_txt = w.iter().find_map(|x| x.strip_prefix("sup="));
                    if let Some(a) = as_tr {
                        name = ident(a);
                        if !w.contains(&"keep") { others.clear(); }
                    }
                    let mut st: Vec<TypeParamBound> = tr
                        .supertraits
                        .iter()
                        .filter(|b| match b {
                            TypeParamBound::Trait(t) => {
                                !matches!(last_seg(&t.path).as_str(), "Debug" | "Hash")
                            }
                            _ => true,
                        })
                        .cloned()
                        .collect();
                    if let Some(t) = sup_txt {
                        st = vec![parse_str(t).unwrap()];
                    }
                    let mut p = Printer::new(&[]);
                    let g = if gp.is_empty() { quote!() } else { quote!(< #gp >) };
                    let sup = if st.is_empty() { quote!() } else { quote!(: #(#st)+*) };
                    p.print(quote!(pub trait #name #g #sup #wh));
                    out.text.push_str(&p.out);
                    out.text.push_str(" {\n");
                    for o in &others {
                        out.text.push_str(o);
                        out.text.push('\n');
                    }
                    open = Some(Open {
                        src,
                        items: fns,
                        others,
                        only_listed,
                        prefix: format!("{}::", w[3]),
                        vis: "",
                        done: HashSet::new(),
                        _p: Default::default(),
                    });
                } else {
                    let (tr, ty) = if w.get(4) == Some(&"for") { (Some(w[3]), w[5]) } else { (None, w[3]) };
                    let mut im = c.impls(tr, ty);
                    if let Some(h) = has {
                        im.retain(|i| i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == h)));
                    }
                    if im.is_empty() {
                        out.errors.push(format!("impl {} not found", d));
                        // skip to close
                        while i < lines.len() && !lines[i].trim().starts_with("//@close") {
                            i += 1;
                        }
                        i += 1;
                        continue;
                    }
                    let mut hd = im[0].clone();
                    let mut fns = vec![];
                    let mut others = vec![];
                    for x in if tr.is_some() { &im[..1] } else { &im[..] } {
                        for it in &x.items {
                            match it {
                                ImplItem::Fn(f) => fns.push(FnDef {
                                    module: "".into(),
                                    self_ty: Some(ty.to_string()),
                                    trait_: tr.map(|s| s.to_string()),
                                    in_trait_decl: false,
                                    sig: f.sig.clone(),
                                    block: Some(f.block.clone()),
                                }),
                                o => {
                                    let mut o = o.clone();
                                    let mut r = rw(c, &cx.cfg, None);
                                    r.visit_impl_item_mut(&mut o);
                                    let mut p = Printer::new(&[]);
                                    p.print(o.to_token_stream());
                                    others.push(p.out)
                                }
                            }
                        }
                    }
                    if let (Some(t), Some(pc)) = (tr, w.iter().find_map(|x| x.strip_prefix("provided="))) {
                        // methods the impl inherits: their default bodies, instantiated for this type
                        if let Some(Item::Trait(td)) = cx.crates[pc].item(t) {
                            for it in &td.items {
                                if let TraitItem::Fn(f) = it {
                                    if f.default.is_some() && cx.inst.contains(&f.sig.ident.to_string()) && !fns.iter().any(|x: &FnDef| x.sig.ident == f.sig.ident) {
                                        fns.push(FnDef {
                                            module: "".into(),
                                            self_ty: Some(ty.to_string()),
                                            trait_: Some(t.to_string()),
                                            in_trait_decl: false,
                                            sig: f.sig.clone(),
                                            block: f.default.clone(),
                                        });
                                    }
                                }
                            }
                        }
                    }
                    hd.items.clear();
                    hd.attrs.clear();
                    let mut r = rw(c, &cx.cfg, None);
                    r.visit_item_impl_mut(&mut hd);
                    if let Some(a) = as_tr {
                        let p: Path = parse_str(a).unwrap();
                        hd.trait_.as_mut().unwrap().1 = p;
                    }
                    let (gp, wh, sty) = (&hd.generics.params, &hd.generics.where_clause, &hd.self_ty);
                    let g = if gp.is_empty() { quote!() } else { quote!(< #gp >) };
                    let trt = match &hd.trait_ {
                        Some((_, p, _)) => quote!(#p for),
                        None => quote!(),
                    };
                    let mut p = Printer::new(&[]);
                    p.print(quote!(impl #g #trt #sty #wh));
                    // bounds that Verus has no use for
                    let txt = p.out.replace("+ Debug", "").replace("Debug +", "");
                    out.text.push_str(&txt);
                    out.text.push_str(" {\n");
                    if tr.is_some() {
                        for o in &others {
                            out.text.push_str(o);
                            out.text.push('\n');
                        }
                    }
                    open = Some(Open {
                        src,
                        items: fns,
                        others,
                        only_listed: only_listed || tr.is_none(),
                        prefix: match tr {
                            Some(t) => format!("<{ty} as {t}>::"),
                            None => format!("{ty}::"),
                        },
                        vis: if tr.is_some() { "" } else { "pub " },
                        done: HashSet::new(),
                        _p: Default::default(),
                    });
                }
            }
            "fn" => {
                let e = block_end(i + 1);
                let con = parse_contract(&lines[i + 1..e]);
                i = e;
                let o = open.as_mut().expect("fn outside open");
                let c = &cx.crates[&o.src];
                let mut name = w[1].to_string();
                let src_name = w.iter().find_map(|x| x.strip_prefix("src=")).unwrap_or(w[1]).to_string();
                match o.items.iter().find(|f| f.sig.ident == src_name.as_str()) {
                    None => {
                        out.errors.push(format!("fn {}{} not found", o.prefix, name));
                    }
                    Some(f) => {
                        let id = format!("{}{}", o.prefix, name);
                        let mut f = f.clone();
                        if src_name != name {
                            f.sig.ident = ident(&name);
                        }
                        let vis = o.vis;
                        emit_fn(&mut out, &cx, c, &id, &f, vis, Some(&con), true);
                    }
                }
                name = src_name;
                o.done.insert(name);
                continue;
            }
            "close" => {
                if let Some(o) = open.take() {
                    let c = &cx.crates[&o.src];
                    if !o.only_listed {
                        for f in &o.items {
                            let n = f.sig.ident.to_string();
                            if !o.done.contains(&n) {
                                let id = format!("{}{}", o.prefix, n);
                                emit_fn(&mut out, &cx, c, &id, f, o.vis, None, true);
                            }
                        }
                    }
                    let _ = &o.others;
                }
                out.text.push_str("}\n");
            }
            "free" => {
                let e = block_end(i + 1);
                let con = parse_contract(&lines[i + 1..e]);
                let c = &cx.crates[w[1]];
                let v = c.free_fn(w[2]);
                if v.is_empty() {
                    out.errors.push(format!("fn {} not found", w[2]));
                } else {
                    emit_fn(&mut out, &cx, c, w[2], v[0], "pub ", Some(&con), true);
                }
                i = e;
                continue;
            }
            x => panic!("line {}: unknown directive {x}", i + 1),
        }
        i += 1;
    }
    std::fs::write(&outp, &out.text).unwrap();
    std::fs::write(
        &mapp,
        format!(
            "{{\"fns\":[{}],\n\"errors\":[{}]}}\n",
            out.map.join(",\n"),
            out.errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        ),
    )
    .unwrap();
}
