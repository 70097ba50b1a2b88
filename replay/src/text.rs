//! Positions and spans against oracles over the plain text.
use crate::ast::I;
use crate::cases::{caught, strings};
use crate::report::{cur, Rep};
use pest3_core::span::merge_spans;
use pest3_core::{Position, Span};
use std::ops::Bound;

fn alphabet(thorough: bool) -> Vec<I> {
    let mut v = strings(&['a', 'é', '\n', '\r', '𝄞'], if thorough { 6 } else { 5 });
    for s in ["line one\nline two\r\nline three\n\nlast", "ab\ncd\nef\n", "\u{feff}a\u{301}b", "日本\n語", "αβγδ εζηθ\n"] { v.push(s) }
    v
}
fn bounds(s: &str) -> Vec<usize> { (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect() }
fn line_start(s: &str, p: usize) -> usize { s[..p].rfind('\n').map_or(0, |i| i + 1) }
fn line_end(s: &str, p: usize) -> usize { s[p..].find('\n').map_or(s.len(), |i| p + i + 1) }

pub fn c02(thorough: bool, rep: &mut Rep) {
    let extremes = [usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1];
    for s in strings(&['a', 'é', '\n', '𝄞'], if thorough { 5 } else { 4 }) {
        if rep.stop() { return }
        cur(|| format!("positions of {s:?}"));
        let offs: Vec<usize> = (0..=s.len() + 2).chain(extremes).collect();
        for &a in &offs {
            match caught(|| Position::new(s, a)) {
                Err(e) => rep.fail(format!("Position::new({s:?}, {a}) panics: {e}")),
                Ok(p) => rep.check(p.map(|p| p.pos()) == s.is_char_boundary(a).then_some(a), || format!("Position::new({s:?}, {a}) = {p:?}")),
            }
            for &b in &offs {
                let want = a <= b && s.is_char_boundary(a) && s.is_char_boundary(b);
                match caught(|| Span::new(s, a, b)) {
                    Err(e) => rep.fail(format!("Span::new({s:?}, {a}, {b}) panics: {e}")),
                    Ok(r) => {
                        rep.check(r.map(|r| (r.start(), r.end())) == want.then_some((a, b)), || format!("Span::new({s:?}, {a}, {b}) = {r:?}"));
                        if let Some(sp) = r {
                            let all = caught(|| {
                                let _ = sp.as_str(); let _ = sp.start_pos(); let _ = sp.end_pos(); let _ = sp.split(); let _ = sp.lines().count();
                                for l in sp.lines_span() { if !(l.start() <= l.end() && s.is_char_boundary(l.start()) && s.is_char_boundary(l.end())) { return Err(format!("{l:?}")) } }
                                Ok(())
                            });
                            rep.check(matches!(all, Ok(Ok(()))), || format!("operations on span {a}..{b} of {s:?}: {all:?}"));
                            for &x in &offs { for &y in &offs {
                                for k in 0..9 {
                                    let lo = [Bound::Included(x), Bound::Excluded(x), Bound::Unbounded][k / 3];
                                    let hi = [Bound::Included(y), Bound::Excluded(y), Bound::Unbounded][k % 3];
                                    if s.len() > 6 && k % 2 == 1 { continue }
                                    let r = caught(|| sp.get((lo, hi)));
                                    rep.check(matches!(&r, Ok(None)) || matches!(&r, Ok(Some(g)) if a <= g.start() && g.start() <= g.end() && g.end() <= b && s.is_char_boundary(g.start()) && s.is_char_boundary(g.end())), || format!("get({lo:?}, {hi:?}) on span {a}..{b} of {s:?}: {r:?}"));
                                }
                            } }
                        }
                    }
                }
            }
            if s.is_char_boundary(a) {
                let p = Position::new(s, a).unwrap();
                let r = caught(|| { let _ = p.line_col(); let _ = p.line_of(); #[cfg(pest3_verif)] { let _ = p.vx_find_line_start(); let _ = p.vx_find_line_end(); let _ = p.vx_at_start(); let _ = p.vx_at_end(); } });
                rep.check(r.is_ok(), || format!("line operations at {a} of {s:?}: {r:?}"));
                #[cfg(pest3_verif)] {
                let mut ops: Vec<(String, Box<dyn Fn(&mut Position<'static>) -> bool>)> = vec![];
                for n in [0, 1, 2, 3, 7, usize::MAX] { ops.push((format!("skip({n})"), Box::new(move |p| p.vx_skip(n)))); ops.push((format!("skip_back({n})"), Box::new(move |p| p.vx_skip_back(n)))) }
                for t in ["", "a", "é", "aé", "\n", "𝄞", "𝄞a", "zz"] {
                    ops.push((format!("match_string({t:?})"), Box::new(move |p| p.vx_match_string(t))));
                    ops.push((format!("match_insensitive({t:?})"), Box::new(move |p| p.vx_match_insensitive(t))));
                    ops.push((format!("skip_until([{t:?}])"), Box::new(move |p| p.vx_skip_until(&[t]))));
                    ops.push((format!("skip_until([{t:?}, é])"), Box::new(move |p| p.vx_skip_until(&[t, "é"]))));
                }
                ops.push(("skip_until([])".into(), Box::new(|p| p.vx_skip_until(&[]))));
                ops.push(("next_char()".into(), Box::new(|p| p.vx_next_char().is_some())));
                ops.push(("match_char_by(_)".into(), Box::new(|p| p.vx_match_char_by(|_| true))));
                ops.push(("match_range(a..z)".into(), Box::new(|p| p.vx_match_range('a'..'z'))));
                ops.push(("match_range(\\0..MAX)".into(), Box::new(|p| p.vx_match_range('\0'..char::MAX))));
                for (n, f) in &ops {
                    let mut q = p;
                    let r = caught(|| f(&mut q));
                    let back = n.starts_with("skip_back");
                    rep.check(r.is_ok() && s.is_char_boundary(q.pos()) && (back || q.pos() >= a) && (!back || q.pos() <= a) && Position::new(s, q.pos()) == Some(q),
                        || format!("{n} at {a} of {s:?}: {r:?}, then at {}", q.pos()));
                }
                }
                for &b in &bounds(s) {
                    let q = Position::new(s, b).unwrap();
                    if a <= b { let r = caught(|| p.span(&q)); rep.check(matches!(&r, Ok(x) if x.start() == a && x.end() == b), || format!("span from {a} to {b} of {s:?}: {r:?}")) }
                    else if let Ok(x) = caught(|| p.span(&q)) { rep.check(x.start() <= x.end(), || format!("span from {a} to {b} of {s:?}: {x:?}")) }
                }
            }
        }
    }
}
pub fn c03(thorough: bool, rep: &mut Rep) {
    let mut v = alphabet(thorough);
    let mut long = String::new();
    for i in 0..300 { long.push_str(&"xé"[..(if i % 3 == 0 { 1 } else { 3 })].repeat(i % 90)); long.push_str(if i % 2 == 0 { "\n" } else { "\r\n" }) }
    v.push(Box::leak(long.into_boxed_str()));
    v.push(Box::leak(("a".repeat(400) + "\n" + &"é".repeat(300)).into_boxed_str()));
    for s in v {
        if rep.stop() { return }
        cur(|| format!("lines of {s:?}"));
        for p in bounds(s) {
            let pos = Position::new(s, p).unwrap();
            let b = &s[..p];
            let want = (1 + b.matches('\n').count(), 1 + b.rsplit('\n').next().unwrap().chars().count());
            let show = || if s.len() < 60 { format!("{s:?}") } else { format!("long text {:?}…", s.chars().take(20).collect::<String>()) };
            let got = caught(|| pos.line_col());
            rep.check(got.as_ref() == Ok(&want), || format!("line_col at {p} of {} is {got:?}, expected {want:?}", show()));
            let text = caught(|| pos.line_of());
            let w = &s[line_start(s, p)..line_end(s, p)];
            rep.check(text.as_ref() == Ok(&w), || format!("line_of at {p} of {} is {text:?}, expected {w:?}", show()));
            #[cfg(pest3_verif)] {
            let l = caught(|| (pos.vx_find_line_start(), pos.vx_find_line_end()));
            rep.check(l.as_ref().ok() == Some(&(line_start(s, p), line_end(s, p))), || format!("line bounds at {p} of {} are {l:?}", show()));
            }
        }
    }
}
pub fn c04(thorough: bool, rep: &mut Rep) {
    for s in alphabet(thorough).into_iter().filter(|s| thorough || s.chars().count() <= 4 || s.len() > 11) {
        if rep.stop() { return }
        cur(|| format!("spans of {s:?}"));
        let bs = bounds(s);
        let mut spans = vec![];
        for &a in &bs { for &b in &bs { if a <= b { spans.push(Span::new(s, a, b).unwrap()) } } }
        for sp in &spans {
            let (a, b) = (sp.start(), sp.end());
            let t = caught(|| sp.as_str());
            rep.check(t.as_ref().ok() == Some(&&s[a..b]), || format!("text of {a}..{b} of {s:?} is {t:?}"));
            let (x, y) = sp.split();
            rep.check((x.pos(), y.pos(), sp.start_pos().pos(), sp.end_pos().pos(), sp.get_input()) == (a, b, a, b, s), || format!("ends of {a}..{b} of {s:?} are {x:?} {y:?}"));
            let n = b - a;
            let edge: Vec<usize> = (0..=n + 1).chain([usize::MAX]).collect();
            for &x in &edge { for &y in &edge {
                for (lo, hi) in [(Bound::Included(x), Bound::Excluded(y)), (Bound::Included(x), Bound::Included(y)), (Bound::Excluded(x), Bound::Excluded(y)), (Bound::Excluded(x), Bound::Included(y)), (Bound::Included(x), Bound::Unbounded), (Bound::Unbounded, Bound::Excluded(y)), (Bound::Unbounded, Bound::Included(y)), (Bound::Unbounded, Bound::Unbounded)] {
                    let st = match lo { Bound::Included(x) => Some(x), Bound::Excluded(x) => x.checked_add(1), Bound::Unbounded => Some(0) };
                    let en = match hi { Bound::Included(y) => y.checked_add(1), Bound::Excluded(y) => Some(y), Bound::Unbounded => Some(n) };
                    let want = match (st, en) { (Some(x), Some(y)) if s[a..b].get(x..y).is_some() => Some((a + x, a + y)), _ => None };
                    let got = caught(|| sp.get((lo, hi)).map(|g| (g.start(), g.end())));
                    rep.check(got.as_ref() == Ok(&want), || format!("get({lo:?}, {hi:?}) on {a}..{b} of {s:?} is {got:?}, expected {want:?}"));
                }
            } }
            // lines that the span covers or touches: from the line of its start, in order, each exactly once
            let mut want = vec![];
            let mut p = line_start(s, a);
            loop { let e = line_end(s, p); want.push((p, e)); if e >= b || e == s.len() { break } p = e }
            let got = caught(|| sp.lines_span().take(1000).map(|l| (l.start(), l.end())).collect::<Vec<_>>());
            let text = caught(|| sp.lines().take(1000).collect::<Vec<_>>());
            // a line that starts exactly where the span ends is touched too, and may be listed
            let mut also = want.clone();
            let e = want.last().unwrap().1;
            if e == b && e < s.len() { also.push((e, line_end(s, e))) }
            // an empty last line may be left out
            let trim = |v: &Vec<(usize, usize)>| v.iter().copied().filter(|x| x.0 < x.1).collect::<Vec<_>>();
            let ok = |g: &Vec<(usize, usize)>| *g == want || *g == also || *g == trim(&want) || *g == trim(&also) || (a == s.len() && g.is_empty());
            rep.check(matches!(&got, Ok(g) if ok(g)), || format!("lines of {a}..{b} of {s:?} are {got:?}, expected {want:?}"));
            rep.check(match (&got, &text) { (Ok(g), Ok(t)) => t.len() == g.len() && t.iter().zip(g).all(|(t, g)| *t == &s[g.0..g.1]), _ => false }, || format!("line texts of {a}..{b} of {s:?} are {text:?} for lines {got:?}"));
            if s.len() <= 8 || thorough {
                for o in &spans {
                    let m = caught(|| merge_spans(sp, o).map(|m| (m.start(), m.end())));
                    let want = (a <= o.end() && o.start() <= b).then_some((a.min(o.start()), b.max(o.end())));
                    rep.check(m.as_ref() == Ok(&want), || format!("merging {a}..{b} and {}..{} of {s:?} gives {m:?}, expected {want:?}", o.start(), o.end()));
                    let eq = caught(|| *sp == *o);
                    rep.check(eq == Ok((a, b) == (o.start(), o.end())), || format!("{a}..{b} == {}..{} is {eq:?}", o.start(), o.end()));
                }
            }
        }
        for &a in &bs { for &b in &bs {
            let (p, q) = (Position::new(s, a).unwrap(), Position::new(s, b).unwrap());
            if a <= b { let g = caught(|| p.span(&q)); rep.check(matches!(&g, Ok(x) if (x.start(), x.end(), x.get_input()) == (a, b, s)), || format!("span {a} to {b} of {s:?}: {g:?}")) }
            rep.check(p.cmp(&q) == a.cmp(&b) && p.partial_cmp(&q) == Some(a.cmp(&b)) && (p == q) == (a == b), || format!("order of positions {a} and {b} of {s:?}"));
        } }
    }
}
/// cursor operations behind the terminals
#[cfg(not(pest3_verif))]
pub fn c01(_thorough: bool, _rep: &mut Rep) {}
#[cfg(pest3_verif)]
pub fn c01(thorough: bool, rep: &mut Rep) {
    let alpha = ['a', 'B', 'é', 'É', '\n', 'K'];
    let texts = strings(&alpha, if thorough { 5 } else { 4 });
    let needles: Vec<I> = strings(&['a', 'b', 'é', 'K', 'k'], 2).into_iter().chain(["aB", "ab", "\n", "aéB", "\u{212a}", "𝄞"]).collect();
    for s in texts {
        if rep.stop() { return }
        cur(|| format!("cursor operations on {s:?}"));
        for a in bounds(s) {
            let p = Position::new(s, a).unwrap();
            let rest = &s[a..];
            let mut go = |n: String, want: Option<usize>, f: &dyn Fn(&mut Position<'static>) -> bool| {
                let mut q = p;
                let r = caught(|| f(&mut q));
                rep.check(r == Ok(want.is_some()) && q.pos() == want.unwrap_or(a), || format!("{n} at {a} of {s:?} gives {r:?} at {}, expected {want:?}", q.pos()));
            };
            for t in &needles {
                go(format!("match_string({t:?})"), rest.starts_with(t).then_some(a + t.len()), &|p| p.vx_match_string(t));
                let ci = rest.len() >= t.len() && rest.as_bytes()[..t.len()].eq_ignore_ascii_case(t.as_bytes());
                go(format!("match_insensitive({t:?})"), ci.then_some(a + t.len()), &|p| p.vx_match_insensitive(t));
            }
            let ch = rest.chars().next();
            for (x, y) in [('a', 'a'), ('a', 'z'), ('A', 'B'), ('b', 'a'), ('é', 'é'), ('\0', char::MAX), ('\n', '\n'), ('K', 'a')] {
                let want = ch.filter(|c| x <= *c && *c <= y).map(|c| a + c.len_utf8());
                go(format!("match_range({x:?}..{y:?})"), want, &|p| p.vx_match_range(x..y));
                go(format!("match_char_by(== {x:?})"), ch.filter(|c| *c == x).map(|c| a + c.len_utf8()), &|p| p.vx_match_char_by(|c| c == x));
                let m = caught(|| p.vx_match_char(x));
                let w = ch == Some(x);
                if m != Ok(w) { go(format!("match_char({x:?})"), None, &|_| panic!("gives {m:?}")) }
            }
            for n in [0usize, 1, 2, 3, 4, 5, usize::MAX] {
                let want = if n <= rest.chars().count() { Some(a + rest.chars().take(n).map(char::len_utf8).sum::<usize>()) } else { None };
                go(format!("skip({n})"), want, &|p| p.vx_skip(n));
                let want = if n <= s[..a].chars().count() { Some(a - s[..a].chars().rev().take(n).map(char::len_utf8).sum::<usize>()) } else { None };
                go(format!("skip_back({n})"), want, &|p| p.vx_skip_back(n));
            }
            for x in ["a", "é", "zz", "\n"] { for y in ["B", "KK", ""] {
                let found = (a..s.len()).filter(|i| s.is_char_boundary(*i)).find(|i| s[*i..].starts_with(x) || s[*i..].starts_with(y));
                let mut q = p;
                let r = caught(|| q.vx_skip_until(&[x, y]));
                rep.check(r == Ok(found.is_some()) && q.pos() == found.unwrap_or(s.len()), || format!("skip_until([{x:?}, {y:?}]) at {a} of {s:?} gives {r:?} at {}, expected {found:?}", q.pos()));
            } }
            let mut q = p;
            let r = caught(|| q.vx_next_char());
            rep.check(r == Ok(ch) && q.pos() == a + ch.map_or(0, char::len_utf8), || format!("next_char at {a} of {s:?} gives {r:?} at {}", q.pos()));
            rep.check(p.vx_at_start() == (a == 0) && p.vx_at_end() == (a == s.len()), || format!("at_start/at_end at {a} of {s:?}"));
        }
    }
}
/// what displaying `a..b` (or the position `a`) prints: text of the line numbers, of the covered characters and of the markers marked by the given functions
fn shown(s: &str, a: usize, b: Option<usize>, q: &dyn Fn(char, &str) -> String) -> String {
    let vis = |t: &str| t.chars().map(|c| match c as u32 { n @ 0..=0x1f => char::from_u32(0x2400 + n).unwrap(), 0x7f => '\u{2421}', _ => c }).collect::<String>();
    let pad = |t: &str| " ".repeat(unicode_width::UnicodeWidthStr::width_cjk(vis(t).as_str()));
    let line_no = |p: usize| 1 + s[..p].matches('\n').count();
    let (n, st, en) = (line_no(a), line_start(s, a), line_end(s, a));
    let Some(b) = b else {
        let d = " ".repeat(n.to_string().len());
        return format!("{d} {}\n{} {} {}\n{d} {} {}{}\n", q('n', "|"), q('n', &n.to_string()), q('n', "|"), vis(&s[st..en]), q('n', "|"), pad(&s[st..a]), q('m', "^"));
    };
    // the line of the last character covered
    let last = if b > a { b - s[..b].chars().last().unwrap().len_utf8() } else { a };
    let (m, ms, me) = (line_no(last), line_start(s, last), line_end(s, last));
    let w = m.to_string().len();
    let d = " ".repeat(w);
    let num = |k: usize| q('n', &format!("{k:w$}"));
    if n == m {
        let mid = vis(&s[a..b]);
        let marks = "^".repeat(unicode_width::UnicodeWidthStr::width_cjk(mid.as_str()));
        return format!("{d} {}\n{} {} {}{}{}\n{d} {} {}{}\n", q('n', "|"), num(n), q('n', "|"), vis(&s[st..a]), q('s', &mid), vis(&s[b..en]), q('n', "|"), pad(&s[st..a]), q('m', &marks));
    }
    let mut o = format!("{d} {} {}{}\n{} {} {}{}\n", q('n', "|"), pad(&s[st..a]), q('m', "v"), num(n), q('n', "|"), vis(&s[st..a]), q('s', &vis(&s[a..en])));
    let mut p = en;
    for k in n + 1..m {
        let e = line_end(s, p);
        if m - n < 5 || k == n + 1 || k == m - 1 { o += &format!("{} {} {}\n", num(k), q('n', "|"), q('s', &vis(&s[p..e]))) } else if k == n + 2 { o += &format!("{d} {} ...\n", q('n', "|")) }
        p = e;
    }
    let before = pad(&s[ms..b]);
    o + &format!("{} {} {}{}\n{d} {} {}{}\n", num(m), q('n', "|"), q('s', &vis(&s[ms..b])), vis(&s[b..me]), q('n', "|"), &before[..before.len().saturating_sub(1)], q('m', "^"))
}
pub fn c19(thorough: bool, rep: &mut Rep) {
    use pest3_core::formatter::FormatOption;
    use std::fmt::Write;
    let mut all: Vec<String> = vec![];
    let ab = ['a', '\n', '\r', ' ', '中', 'é', '\t', '\u{7f}'];
    let mut cur_len = vec![String::new()];
    for _ in 0..if thorough { 6 } else { 4 } { all.extend(cur_len.iter().cloned()); cur_len = cur_len.iter().flat_map(|s| ab.iter().map(move |c| format!("{s}{c}"))).collect(); }
    all.extend(cur_len);
    // more lines, and numbers of several digits
    for n in 4..if thorough { 14 } else { 8 } { for l in ["", "a", "中b"] { for end in ["", "\n"] { all.push(format!("{}{end}", vec![l; n].join("\n"))) } } }
    all.extend(["a \nb ", " \n a \n b\n", "a  b\n\tc  d\n e ", "\u{3000}a\n\u{3000}\u{3000}", "e\u{301}\u{200b}\nx\u{301} y"].map(String::from));
    let many = |n: usize| (0..n).map(|i| format!("{}\n", "x".repeat(i % 3))).collect::<String>();
    all.extend([many(12), format!("{}yz", many(10)), format!("\u{0}\u{1f} ~\u{80}\n{}", many(9))]);
    if thorough { all.push(many(102)) }
    let plain = |_: char, t: &str| t.to_string();
    let marked = |k: char, t: &str| format!("{k}[{t}]");
    for s in &all {
        if rep.stop() { return }
        cur(|| format!("display in {s:?}"));
        let bs = bounds(s);
        for &a in &bs {
            let p = Position::new(s, a).unwrap();
            let want = shown(s, a, None, &plain);
            let got = caught(|| p.to_string());
            rep.check(got.as_ref() == Ok(&want), || format!("displaying position {a} of {s:?} gives {got:?}, expected {want:?}"));
            let opt = || FormatOption::new::<String>(|t: &str, f: &mut String| write!(f, "s[{t}]"), |t: &str, f: &mut String| write!(f, "m[{t}]"), |t: &str, f: &mut String| write!(f, "n[{t}]"));
            let want = shown(s, a, None, &marked);
            let got = caught(|| { let mut o = String::new(); p.display(&mut o, opt()).unwrap(); o });
            rep.check(got.as_ref() == Ok(&want), || format!("displaying position {a} of {s:?} with markers gives {got:?}, expected {want:?}"));
            for &b in bs.iter().filter(|b| **b >= a) {
                let sp = Span::new(s, a, b).unwrap();
                let want = shown(s, a, Some(b), &plain);
                let got = caught(|| sp.to_string());
                rep.check(got.as_ref() == Ok(&want), || format!("displaying {a}..{b} of {s:?} gives {got:?}, expected {want:?}"));
                let want = shown(s, a, Some(b), &marked);
                let got = caught(|| { let mut o = String::new(); sp.display(&mut o, opt()).unwrap(); o });
                rep.check(got.as_ref() == Ok(&want), || format!("displaying {a}..{b} of {s:?} with markers gives {got:?}, expected {want:?}"));
            }
        }
    }
}
