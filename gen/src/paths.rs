//! Imports, from files in a scratch directory.
use crate::cases::caught;
use crate::rand::Rng;
use crate::report::{cur, Rep};
use pest3_meta::parser::{self, GrammarModule, Import};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(&self.0); } }
const DIRS: &[&str] = &["p", "p/q", "p/q/b", "p/q/b/d", "p/q/x.pest", "p/q/x.pest/b", "p/q/b/v1.2", "p/b", "p/q/v.old"];
const FILES: &[&str] = &["a", "b", "c", "main"];

fn import(text: &str, root: &Path) -> Result<std::sync::Arc<GrammarModule>, String> {
    match caught(|| parser::parse(text, &root)) { Ok(Ok(m)) => Ok(m), Ok(Err(e)) => Err(format!("rejected: {}", e.to_string().chars().take(200).collect::<String>())), Err(p) => Err(format!("panic: {p}")) }
}
/// the file a module path names, seen from the directory of the importing grammar
fn target(dir: &Path, path: &[&str]) -> PathBuf {
    let mut d = dir.to_path_buf();
    for c in path { if *c == "super" { d.pop(); } else { d.push(c) } }
    let n = d.file_name().unwrap().to_str().unwrap().to_string();
    d.with_file_name(format!("{n}.pest"))
}
fn first(m: &GrammarModule) -> Option<(String, String)> { match &m.imports[..] { [Import::File(a, m)] => Some((a.clone(), m.rules.first()?.name.clone())), _ => None } }

pub fn run(thorough: bool, rng: &mut Rng, rep: &mut Rep) {
    let base = std::env::temp_dir().join(format!("vx_paths_{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let base = Scratch(base.canonicalize().unwrap());
    let top = &base.0;
    let mut ids: BTreeMap<PathBuf, String> = BTreeMap::new();
    for d in DIRS { std::fs::create_dir_all(top.join(d)).unwrap() }
    for (i, d) in DIRS.iter().enumerate() { for f in FILES {
        let p = top.join(d).join(format!("{f}.pest"));
        let id = format!("in_{i}_{f}");
        std::fs::write(&p, format!("{id} = \"a\"\n")).unwrap();
        ids.insert(p, id);
    } }
    let mut paths: Vec<Vec<&str>> = vec![];
    let comps = ["super", "a", "b", "d", "c", "main", "q", "none"];
    let mut todo: Vec<Vec<&str>> = vec![vec![]];
    while let Some(v) = todo.pop() {
        if v.last().map_or(false, |l| *l != "super") { paths.push(v.clone()) }
        if v.len() < if thorough { 5 } else { 4 } { for c in comps { let mut w = v.clone(); w.push(c); todo.push(w) } }
    }
    let mut one = |root: &Path, dir: &Path, path: &[&str], rep: &mut Rep| {
        let want = target(dir, path);
        let id = ids.get(&want);
        // walking through a directory that does not exist
        let mut d = dir.to_path_buf();
        let walkable = path[..path.len() - 1].iter().all(|c| { if *c == "super" { d.pop(); } else { d.push(c) } d.is_dir() });
        let name = path.join("::");
        let text = format!("use {name}\nr = \"a\"\n");
        cur(|| format!("{text:?} in {root:?}"));
        let got = import(&text, root);
        match (&got, id) {
            (Ok(m), Some(id)) if walkable => {
                let f = first(m);
                rep.check(f == Some((path.last().unwrap().to_string(), id.clone())), || format!("`use {name}` in {root:?} reads {f:?}, expected {want:?} ({id})"));
                rep.check(m.dependencies.len() == 1 && m.dependencies.iter().all(|p| p.canonicalize().ok() == Some(want.clone())), || format!("`use {name}` in {root:?} depends on {:?}, expected {want:?}", m.dependencies));
            }
            (Err(e), Some(_)) if walkable => rep.check(false, || format!("`use {name}` in {root:?}: {e}; expected {want:?}")),
            (Ok(m), _) => rep.check(false, || format!("`use {name}` in {root:?} reads {:?}; there is no {want:?}", first(m))),
            (Err(e), _) => rep.check(e.starts_with("rejected"), || format!("`use {name}` in {root:?}: {e}")),
        }
    };
    for d in DIRS { let dir = top.join(d); for p in &paths {
        if rep.stop() { return }
        if !thorough && p.len() == 4 && !rng.one_in(8) { continue }
        for f in ["main.pest", "grammar", "g.txt"] { if f == "main.pest" || rng.one_in(4) { one(&dir.join(f), &dir, p, rep) } }
    } }
    // relative roots
    for d in DIRS { let dir = top.join(d); std::env::set_current_dir(&dir).unwrap(); for p in paths.iter().filter(|p| p.len() < 4) { for r in ["main.pest", "./main.pest"] { one(Path::new(r), &dir, p, rep) } } }
    std::env::set_current_dir(top).unwrap();
    for p in paths.iter().filter(|p| p.len() < 4) { one(Path::new("p/q/main.pest"), &top.join("p/q"), p, rep) }
    // imports of imported modules are relative to these; a module imported twice is the same module
    let nest = top.join("p/q/b/nest.pest");
    for (u, want) in [("super::a", "p/q/a"), ("a", "p/q/b/a"), ("d::c", "p/q/b/d/c"), ("super::super::b::c", "p/b/c")] {
        std::fs::write(&nest, format!("use {u}\nn = \"x\"\n")).unwrap();
        for text in ["use b::nest\nr = \"a\"\n", "use b::nest as z\nuse a\nr = \"a\"\nuse b::nest\n"] {
            let root = top.join("p/q/main.pest");
            cur(|| format!("{text:?} with b::nest importing {u}"));
            let got = import(text, &root).map(|m| m.imports.iter().filter_map(|i| match i { Import::File(_, m) => first(m), _ => None }).map(|x| x.1).collect::<Vec<_>>());
            let id = &ids[&top.join(format!("{want}.pest"))];
            let n = if text.contains(" as z") { 2 } else { 1 };
            rep.check(got == Ok(vec![id.clone(); n]), || format!("`use {u}` in {nest:?} (imported from {root:?}) reads {got:?}, expected {id}"));
        }
    }
    // several imports in one grammar, among them files of the same name and the same file by different paths
    for d in DIRS {
        let dir = top.join(d);
        let usable: Vec<(&Vec<&str>, &String)> = paths.iter().filter_map(|p| {
            let mut d = dir.clone();
            if !p[..p.len() - 1].iter().all(|c| { if *c == "super" { d.pop(); } else { d.push(c) } d.is_dir() }) { return None }
            Some((p, ids.get(&target(&dir, p))?))
        }).collect();
        for _ in 0..if thorough { 1000 } else { 100 } {
            if rep.stop() { return }
            let (mut text, mut want) = (String::new(), vec![]);
            for k in 0..2 + rng.below(4) {
                let (p, id) = usable[rng.below(usable.len())];
                text += &format!("use {} as m{k}\n", p.join("::"));
                want.push((format!("m{k}"), id.clone()));
            }
            text += "r = \"a\"\n";
            cur(|| format!("{text:?} in {dir:?}"));
            let got = import(&text, &dir.join("main.pest")).map(|m| m.imports.iter().map(|i| match i { Import::File(a, m) => (a.clone(), m.rules[0].name.clone()), Import::Builtin(a, _) => (a.clone(), "built-in".into()) }).collect::<Vec<_>>());
            rep.check(got == Ok(want.clone()), || format!("{text:?} in {dir:?} reads {got:?}, expected {want:?}"));
        }
    }
    // explicit files, and aliases
    for d in DIRS { for f in FILES {
        let p = top.join(d).join(format!("{f}.pest"));
        let text = format!("use anything::q in {p:?} as zed\nr = \"a\"\n");
        cur(|| text.clone());
        let got = import(&text, &top.join("p/main.pest")).map(|m| first(&m));
        rep.check(got == Ok(Some(("zed".into(), ids[&p].clone()))), || format!("{text:?}: {got:?}, expected {}", ids[&p]));
    } }
    // through the derive: grammar files of any name, and grammars given in place
    for (file, dir) in [("main.pest", "p/q"), ("grammar.txt", "p/q"), ("grammar", "p/q/b"), ("main.pest", "p/q/x.pest"), ("other.pest", "p/q/v.old"), ("my.grammar.pest", "p/q/b/v1.2")] {
        for u in [&["a"][..], &["super", "a"], &["super", "super", "b", "c"], &["b", "c"]] {
            let want = target(&top.join(dir), u);
            let Some(id) = ids.get(&want) else { continue };
            let alias = "zed";
            let p = top.join(dir).join(file);
            let before = std::fs::read(&p).ok();
            let text = format!("use {} as {alias}\nr = zed::{id}\n", u.join("::"));
            std::fs::write(&p, &text).unwrap();
            cur(|| format!("{text:?} in {p:?}, derived"));
            let path = p.to_str().unwrap();
            let got = caught(|| crate::types::read(pest3_generator::typed::derive_typed_parser(quote::quote! { #[grammar = #path] struct P; }, true, true)))
                .map(|g| g.root.subs.get(alias).map(|m| m.rules.iter().map(|r| r.name.clone()).collect::<Vec<_>>()));
            rep.check(got == Ok(Some(vec![id.clone()])), || format!("{text:?} in {p:?}, derived: module is {got:?}, expected {id}"));
            std::env::set_var("CARGO_MANIFEST_DIR", top.join(dir));
            let got = caught(|| crate::types::read(pest3_generator::typed::derive_typed_parser(quote::quote! { #[grammar_inline = #text] struct P; }, false, true)))
                .map(|g| g.root.subs.get(alias).map(|m| m.rules.iter().map(|r| r.name.clone()).collect::<Vec<_>>()));
            rep.check(got == Ok(Some(vec![id.clone()])), || format!("{text:?} inline, manifest in {dir}: module is {got:?}, expected {id}"));
            match before { Some(b) => std::fs::write(&p, b).unwrap(), None => std::fs::remove_file(&p).unwrap() }
        }
    }
}
