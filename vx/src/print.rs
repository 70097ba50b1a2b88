//! Token printer: prints a token stream as Verus text. Marker macros planted by the
//! rewriter (`__vx_raw!{k}`, `__vx_inv!{k}`, `__vx_it!{k}`) are replaced by raw text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub out: String,
    pub raws: &'a [String],
    joint: bool,
}

fn marker(toks: &[TokenTree], i: usize) -> Option<(String, String)> {
    if i + 2 >= toks.len() + 0 && i + 2 > toks.len() - 1 {
        return None;
    }
    if let (TokenTree::Ident(id), TokenTree::Punct(p), TokenTree::Group(g)) =
        (&toks[i], &toks[i + 1], &toks[i + 2])
    {
        let n = id.to_string();
        if p.as_char() == '!' && n.starts_with("__vx_") {
            return Some((n, g.stream().to_string()));
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(raws: &'a [String]) -> Self {
        Printer { out: String::new(), raws, joint: true }
    }
    fn sp(&mut self) {
        if !self.joint && !self.out.ends_with(['\n', ' ']) {
            self.out.push(' ');
        }
        self.joint = false;
    }
    fn nl(&mut self) {
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        self.joint = true;
    }
    pub fn print(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let Some((name, arg)) = marker(&toks, i) {
                match name.as_str() {
                    "__vx_raw" => {
                        let k: usize = arg.trim().parse().unwrap();
                        self.nl();
                        let t = self.raws[k].clone();
                        self.out.push_str(&t);
                        self.nl();
                        i += 3;
                        // swallow a following `;`
                        if let Some(TokenTree::Punct(p)) = toks.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        continue;
                    }
                    "__vx_it" => {
                        self.sp();
                        self.out.push_str(&format!("{}:", arg.trim()));
                        i += 3;
                        continue;
                    }
                    _ => {}
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut start = 0;
                            if inner.len() >= 3 {
                                if let Some((n, arg)) = marker(&inner, 0) {
                                    if n == "__vx_inv" {
                                        let k: usize = arg.trim().parse().unwrap();
                                        self.nl();
                                        let t = self.raws[k].clone();
                                        self.out.push_str(&t);
                                        self.nl();
                                        start = 3;
                                        if let Some(TokenTree::Punct(p)) = inner.get(3) {
                                            if p.as_char() == ';' {
                                                start = 4;
                                            }
                                        }
                                    }
                                }
                            }
                            self.sp();
                            self.out.push('{');
                            self.nl();
                            let ts: TokenStream = inner[start..].iter().cloned().collect();
                            self.print(ts);
                            self.nl();
                            self.out.push('}');
                            self.nl();
                        }
                        Delimiter::Parenthesis => {
                            self.joint = self.joint || matches!(i.checked_sub(1).map(|j| &toks[j]), Some(TokenTree::Ident(_)));
                            self.sp();
                            self.out.push('(');
                            self.joint = true;
                            self.print(g.stream());
                            self.out.push(')');
                            self.joint = false;
                        }
                        Delimiter::Bracket => {
                            self.sp();
                            self.out.push('[');
                            self.joint = true;
                            self.print(g.stream());
                            self.out.push(']');
                            self.joint = false;
                        }
                        Delimiter::None => self.print(g.stream()),
                    }
                }
                TokenTree::Ident(id) => {
                    self.sp();
                    self.out.push_str(&id.to_string());
                    // a binding of this name makes the verifier's rustc panic
                    if id == "lhs" { self.out.push('_') }
                }
                TokenTree::Literal(l) => {
                    self.sp();
                    self.out.push_str(&l.to_string());
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';') {
                        self.joint = true;
                    }
                    if c == '.' && !matches!(i.checked_sub(1).map(|j| &toks[j]), Some(TokenTree::Literal(_))) {
                        self.joint = true;
                    }
                    self.sp();
                    self.out.push(c);
                    if p.spacing() == Spacing::Joint || c == '\'' || c == '.' {
                        self.joint = true;
                    }
                    if c == ';' {
                        self.nl();
                    }
                }
            }
            i += 1;
        }
    }
}
