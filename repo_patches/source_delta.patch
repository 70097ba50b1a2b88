From dcb01b50ba6d162723a7be811799d5eed732bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 01/13] fix: Span::get overflows on ranges bounded by
 usize::MAX

---
 core/src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/span.rs b/core/src/span.rs
index 31ac3aa..dd79d0d 100644
--- a/core/src/span.rs
+++ b/core/src/span.rs
@@ -85,11 +85,11 @@ impl<'i> Span<'i> {
     pub fn get(&self, range: impl RangeBounds<usize>) -> Option<Span<'i>> {
         let start = match range.start_bound() {
             Bound::Included(offset) => *offset,
-            Bound::Excluded(offset) => *offset + 1,
+            Bound::Excluded(offset) => offset.checked_add(1)?,
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(offset) => *offset + 1,
+            Bound::Included(offset) => offset.checked_add(1)?,
             Bound::Excluded(offset) => *offset,
             Bound::Unbounded => self.as_str().len(),
         };
-- 
2.43.0


From 172926cd0a09a6ed5fd42e7abbec2f4781a0b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 02/13] fix: Position::span never builds a span that ends
 before it starts

---
 core/src/position.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/position.rs b/core/src/position.rs
index 328fd4e..1b568f0 100644
--- a/core/src/position.rs
+++ b/core/src/position.rs
@@ -97,7 +97,7 @@ impl<'i> Position<'i> {
     ///
     /// # Panics
     ///
-    /// Panics if the positions come from different inputs.
+    /// Panics if the positions come from different inputs, or if `other` is before `self`.
     ///
     /// # Examples
     ///
@@ -112,15 +112,15 @@ impl<'i> Position<'i> {
     /// ```
     #[inline]
     pub fn span(&self, other: &Position<'i>) -> span::Span<'i> {
-        if ptr::eq(self.input, other.input)
-        /* && self.input.get(self.pos..other.pos).is_some() */
-        {
-            // This is safe because the pos field of a Position should always be a valid str index.
-            unsafe { span::Span::new_unchecked(self.input, self.pos, other.pos) }
-        } else {
-            // TODO: maybe a panic if self.pos < other.pos
+        if !ptr::eq(self.input, other.input) {
             panic!("span created from positions from different inputs")
         }
+        if self.pos > other.pos {
+            panic!("span created from positions in reverse order")
+        }
+        // This is safe because the pos field of a Position should always be a valid str index,
+        // and `self` is not after `other`.
+        unsafe { span::Span::new_unchecked(self.input, self.pos, other.pos) }
     }
 
     /// Returns the line and column number of this `Position`.
-- 
2.43.0


From d93618862c99268938a1628a7a42d12b2097490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:34 +0000
Subject: [PATCH 03/13] verification hook: expose internal cursor operations
 under cfg(pest3_verif)

---
 core/src/lib.rs       |  3 +++
 core/src/typed/mod.rs |  2 ++
 core/src/verif.rs     | 47 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+)
 create mode 100644 core/src/verif.rs

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 4d8be76..c28f897 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -1,6 +1,7 @@
 //! Core part of pest3.
 
 // #![no_std]
+#![allow(unexpected_cfgs)]
 #![warn(rust_2018_idioms, rust_2021_compatibility, missing_docs)]
 
 pub mod choice;
@@ -10,6 +11,8 @@ pub mod sequence;
 pub mod span;
 pub mod token;
 pub mod typed;
+#[cfg(pest3_verif)]
+pub mod verif;
 
 extern crate alloc;
 
diff --git a/core/src/typed/mod.rs b/core/src/typed/mod.rs
index 2725050..b81b9e1 100644
--- a/core/src/typed/mod.rs
+++ b/core/src/typed/mod.rs
@@ -2,6 +2,8 @@
 
 pub mod template;
 mod tracker;
+#[cfg(pest3_verif)]
+pub use tracker::SpecialError;
 mod traits;
 pub mod unicode;
 pub mod wrapper;
diff --git a/core/src/verif.rs b/core/src/verif.rs
new file mode 100644
index 0000000..6f63196
--- /dev/null
+++ b/core/src/verif.rs
@@ -0,0 +1,47 @@
+//! Hooks for the verification harness; compiled only with `--cfg pest3_verif`.
+#![allow(missing_docs)]
+
+use crate::Position;
+use core::ops::Range;
+
+impl<'i> Position<'i> {
+    pub fn vx_find_line_start(&self) -> usize {
+        self.find_line_start()
+    }
+    pub fn vx_find_line_end(&self) -> usize {
+        self.find_line_end()
+    }
+    pub fn vx_at_start(&self) -> bool {
+        self.at_start()
+    }
+    pub fn vx_at_end(&self) -> bool {
+        self.at_end()
+    }
+    pub fn vx_skip(&mut self, n: usize) -> bool {
+        self.skip(n)
+    }
+    pub fn vx_skip_back(&mut self, n: usize) -> bool {
+        self.skip_back(n)
+    }
+    pub fn vx_skip_until(&mut self, strings: &[&str]) -> bool {
+        self.skip_until(strings)
+    }
+    pub fn vx_next_char(&mut self) -> Option<char> {
+        self.next_char()
+    }
+    pub fn vx_match_char(&self, c: char) -> bool {
+        self.match_char(c)
+    }
+    pub fn vx_match_char_by(&mut self, f: impl FnOnce(char) -> bool) -> bool {
+        self.match_char_by(f)
+    }
+    pub fn vx_match_string(&mut self, s: &str) -> bool {
+        self.match_string(s)
+    }
+    pub fn vx_match_insensitive(&mut self, s: &str) -> bool {
+        self.match_insensitive(s)
+    }
+    pub fn vx_match_range(&mut self, r: Range<char>) -> bool {
+        self.match_range(r)
+    }
+}
-- 
2.43.0


From ed4ed95579b0b11fc662273b6933832a04889869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 04/13] fix: the children of a pushed rule include the rule
 itself

---
 core/src/typed/template/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/src/typed/template/mod.rs b/core/src/typed/template/mod.rs
index fd9e713..fda3a74 100644
--- a/core/src/typed/template/mod.rs
+++ b/core/src/typed/template/mod.rs
@@ -959,9 +959,6 @@ impl<R: RuleType, T: PairContainer<R>> PairContainer<R> for push<T> {
     fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
         self.content.for_self_or_for_each_child_pair(f)
     }
-    fn vec_children_pairs(&self) -> Vec<crate::token::Pair<R>> {
-        self.content.vec_children_pairs()
-    }
 }
 
 /// Match `[START..END]` in top-to-bottom order of the stack.
-- 
2.43.0


From 6f2cbd40566a6d8ed92754d230cf18cf69faf680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 05/13] fix: replace a rule parameter in every argument of a
 call

---
 meta/src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5afb4ad..fadfba6 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -238,9 +238,13 @@ impl ParseExpr {
                 let replaced_rhs = rhs.expr.replace(arg_name, new_expr);
                 replaced_lhs || replaced_rhs
             }
-            Self::Path(_, Some(PathArgs::Call(args))) => args
-                .iter_mut()
-                .any(|arg| arg.expr.replace(arg_name, new_expr)),
+            Self::Path(_, Some(PathArgs::Call(args))) => {
+                let mut replaced = false;
+                for arg in args.iter_mut() {
+                    replaced |= arg.expr.replace(arg_name, new_expr);
+                }
+                replaced
+            }
             _ => false,
         }
     }
-- 
2.43.0


From 4c7de38bc4954085449e4d1998de1bc74f8880a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 06/13] fix: a quote in a character literal is that character

---
 meta/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index fadfba6..5fb7799 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -882,7 +882,8 @@ fn parse_node(
 }
 
 fn string_content(pair: &Pair<'_, Rule>) -> Result<String, Error<Rule>> {
-    let string = unescape(pair.as_str()).ok_or(Error::new_from_span(
+    let string = pair.as_str();
+    let string = unescape(&string[1..string.len() - 1]).ok_or(Error::new_from_span(
         ErrorVariant::CustomError {
             message: "invalid string literal".to_string(),
         },
@@ -949,7 +950,6 @@ fn unescape(string: &str) -> Option<String> {
                 }
                 _ => return None,
             },
-            Some('"') => (),
             Some(c) => result.push(c),
             None => return Some(result),
         };
-- 
2.43.0


From 5e501042e0a2b4190f605c2fed3eddb91e82e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 07/13] fix: the content of a raw string with pound signs

---
 meta/src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index 5fb7799..eebfe00 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -637,11 +637,12 @@ fn parse_string(pair: Pair<'_, Rule>, span: &Span) -> Result<ParseNode, Error<Ru
 
 fn parse_raw_string(pair: Pair<'_, Rule>, span: &Span) -> ParseNode {
     let span = span.from_pest(pair.as_span());
-    let mut pairs = pair.into_inner();
-
-    pairs.next().unwrap(); // quote
 
-    let content = pairs.next().unwrap().as_str();
+    let content = pair
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::inner_raw_str)
+        .expect("expected Rule::inner_raw_str")
+        .as_str();
     let expr = ParseExpr::Str(content.to_owned());
 
     ParseNode { expr, span }
-- 
2.43.0


From 8993b278fd4e8a5f1f5ff4df9fdc9f5f12b4fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 08/13] fix: inline silent rules in the arguments of a call

---
 generator/src/typed/generator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 6d21323..0748747 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -935,6 +935,9 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                 ParseExpr::PosPred(inner) | ParseExpr::NegPred(inner) => {
                     nodes.push(inner);
                 }
+                ParseExpr::Path(_, Some(PathArgs::Call(args))) => {
+                    nodes.extend(args);
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From 53d4da44d9a908a6d1de2b81a55ed47b37ad09a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 09/13] fix: inline a silent rule with all its arguments at
 once

---
 generator/src/typed/generator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 0748747..06f7cc2 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -892,15 +892,20 @@ fn inline_silent_rules_with_args(module: GrammarModule) -> GrammarModule {
                                 {
                                     assert!(silent_rule.args.len() == args.len(), "Arguments count mismatch when inlining silent rule `{}`. Expected {}, found {}.", silent_rule.name, silent_rule.args.len(), args.len());
                                     let mut new_expr = silent_rule.node.expr.clone();
-                                    for (arg, silent_arg_name) in
-                                        args.iter().zip(silent_rule.args.iter())
+                                    // An argument may mention a rule whose name is that of another
+                                    // parameter, so no parameter is left when the arguments are put in.
+                                    for (i, silent_arg_name) in silent_rule.args.iter().enumerate()
                                     {
-                                        replaced |=
-                                            new_expr.replace(silent_arg_name.as_str(), &arg.expr);
+                                        new_expr.replace(
+                                            silent_arg_name.as_str(),
+                                            &ParseExpr::Path(vec![format!("#{i}")], None),
+                                        );
                                     }
-                                    if replaced {
-                                        replace_expr = Some(new_expr);
+                                    for (i, arg) in args.iter().enumerate() {
+                                        new_expr.replace(&format!("#{i}"), &arg.expr);
                                     }
+                                    replaced = true;
+                                    replace_expr = Some(new_expr);
                                 }
                             }
                         }
-- 
2.43.0


From e519efbea9a6c2715292802bc6845e4244d33af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 10/13] fix: rules used by trivia count as used by the rules
 that use the trivia

---
 generator/src/typed/generator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index 06f7cc2..bfdeee7 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -728,7 +728,8 @@ fn collect_used_rule<'g>(
     res: &mut BTreeSet<&'g str>,
 ) {
     let mut nodes: Vec<&'g ParseNode> = vec![];
-    let require_trivia = |trivia: Trivia| {
+    let (opt, man) = collect_used_rule_without_trivia_into(rule, res);
+    let mut require_trivia = |trivia: Trivia| {
         let expect_trivia = {
             format!(
                 "Please define trivia with `{} = \"...\"`. It's used in rule `{}`.",
@@ -737,15 +738,14 @@ fn collect_used_rule<'g>(
         };
         match trivia {
             Trivia::Mandatory => {
-                mandatory_trivia.expect(&expect_trivia);
+                res.extend(mandatory_trivia.expect(&expect_trivia));
             }
             Trivia::Optional => {
-                optional_trivia.expect(&expect_trivia);
+                res.extend(optional_trivia.expect(&expect_trivia));
             }
             Trivia::None => (),
         }
     };
-    let (opt, man) = collect_used_rule_without_trivia_into(rule, res);
     if opt {
         require_trivia(Trivia::Optional);
     }
-- 
2.43.0


From c9580eb89c85076cf1bcc02727d143a13189c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 11/13] fix: a built-in rule imported under another name

---
 generator/src/typed/module.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/generator/src/typed/module.rs b/generator/src/typed/module.rs
index 7911490..85722b1 100644
--- a/generator/src/typed/module.rs
+++ b/generator/src/typed/module.rs
@@ -39,6 +39,8 @@ pub enum RuleGenerics {
     /// Defined rule in current module.
     Rule { argc: usize },
     BuiltIn {
+        /// Name of the built-in rule, whatever the name it is imported as.
+        name: &'static str,
         /// Built-in rule that accepts nothing as argument.
         ///
         /// - Whether it requires lifetime specifier.
@@ -63,7 +65,11 @@ impl RuleGenerics {
         root: &TokenStream,
     ) -> Result<Intermediate<'g>, ModuleError<'g>> {
         let generics = generics();
-        let name = format_ident!("r#{}", name_str);
+        let name = match self {
+            Self::Rule { .. } => name_str,
+            Self::BuiltIn { name, .. } => name,
+        };
+        let name = format_ident!("r#{}", name);
         let current = rule_ref.path[0..rule_ref.path.len() - 1].iter().map(|sec| {
             let sec = format_ident!("{}", sec);
             quote! {#sec::rules::}
@@ -102,6 +108,7 @@ impl RuleGenerics {
                 direct,
                 slice,
                 callable,
+                ..
             } => match args {
                 None => {
                     let (lifetime,) =
@@ -270,6 +277,7 @@ impl<'g> ModuleSystem<'g> {
                     Rc::new(
                         ModuleNode::Generics(
                             RuleGenerics::BuiltIn {
+                                name: core::stringify!($name),
                                 direct: None $( .or(Some(pest_direct! { $($direct)* })) )?,
                                 slice: None $( .or(Some(pest_slice! { $( $slice )* })) )?,
                                 callable: None $( .or(Some(pest_callable! { $( $callable )* })) )?,
-- 
2.43.0


From 9639d5acaaca2a11c9d9f5220166920904e52844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 12/13] fix: imports are found next to the grammar file,
 whatever it is called

---
 generator/src/typed/generator.rs | 4 ++--
 meta/src/parser.rs               | 3 ---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/generator/src/typed/generator.rs b/generator/src/typed/generator.rs
index bfdeee7..2060946 100644
--- a/generator/src/typed/generator.rs
+++ b/generator/src/typed/generator.rs
@@ -1004,10 +1004,10 @@ pub fn derive_typed_parser(
     let module = data
         .iter()
         .map(|(input, root)| {
-            let mut root = root.clone().unwrap_or_else(|| {
+            let root = root.clone().unwrap_or_else(|| {
                 PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap_or(".".to_owned()))
+                    .join("_.rs")
             });
-            root.push("_.rs");
             match parser::parse(input, &root) {
                 Ok(pairs) => pairs,
                 Err(error) => panic!("error parsing \n{}", error.renamed_rules(rename_meta_rule)),
diff --git a/meta/src/parser.rs b/meta/src/parser.rs
index eebfe00..624c346 100644
--- a/meta/src/parser.rs
+++ b/meta/src/parser.rs
@@ -290,9 +290,6 @@ fn mod_path_to_fs_path(root: &impl AsRef<Path>, mod_path: &[String]) -> PathBuf
         .parent()
         .expect("Grammar file path cannot be root.")
         .to_owned();
-    if matches!(path.extension().map(|x| x.to_str()), Some(Some("pest"))) {
-        path.pop();
-    }
     for sec in mod_path {
         let sec = match sec.as_str() {
             "super" => "..",
-- 
2.43.0


From c0929854d3312d50d3ed4e07a6ceb24224a33e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 13/13] fix: display of positions and spans at the start of a
 line and at the end of the input

---
 core/src/formatter.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/core/src/formatter.rs b/core/src/formatter.rs
index 2d32c22..27dc434 100644
--- a/core/src/formatter.rs
+++ b/core/src/formatter.rs
@@ -110,6 +110,15 @@ impl<'i> Partition<'i> {
     }
 }
 
+/// Lines of the input, including the one without a line break (maybe empty) that ends it.
+fn lines_of<'s>(input: &'s Span<'_>) -> Vec<&'s str> {
+    let mut lines: Vec<_> = input.lines().collect();
+    if input.as_str().is_empty() || input.as_str().ends_with('\n') {
+        lines.push("");
+    }
+    lines
+}
+
 /// Formatter options for [Span](crate::Span).
 pub struct FormatOption<SpanFormatter, MarkerFormatter, NumberFormatter> {
     /// Formatter for characters in span.
@@ -339,9 +348,10 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         let mut end = None;
         let mut pos = 0usize;
         let input = Span::new(span.get_input(), 0, span.get_input().len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let lines = lines_of(&input);
+        let mut iter = lines.iter().enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() >= span.start() {
+            if pos + line.len() > span.start() || *index + 1 == lines.len() {
                 start = Some(Pos {
                     line: *index,
                     col: span.start() - pos,
@@ -363,18 +373,13 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
         }
         let start = start.unwrap();
         let end = end.unwrap();
-        let mut lines = input
-            .lines()
-            .skip(start.line)
-            .take(end.line - start.line + 1)
-            .peekable();
+        let lines = &lines[start.line..=end.line];
         let index_digit = Self::ceil_log10(end.line + 1);
         if start.line == end.line {
-            let cur_line = lines.next().unwrap();
+            let cur_line = lines.first().unwrap();
             let line = Partition2::new(start.line, cur_line, start.col, end.col);
             self.display_snippet_single_line(f, index_digit, line)?;
         } else {
-            let lines: Vec<_> = lines.collect();
             let start_line = lines.first().unwrap();
             let end_line = lines.last().unwrap();
             let start = Partition::new(start.line, start_line, start.col);
@@ -418,9 +423,10 @@ impl<SF, MF, NF> FormatOption<SF, MF, NF> {
     {
         let mut pos = 0usize;
         let input = Span::new(position.input, 0, position.input.len()).unwrap();
-        let mut iter = input.lines().enumerate().peekable();
+        let lines = lines_of(&input);
+        let mut iter = lines.iter().enumerate().peekable();
         while let Some((index, line)) = iter.peek() {
-            if pos + line.len() > position.pos() {
+            if pos + line.len() > position.pos() || *index + 1 == lines.len() {
                 let l = *index;
                 let c = position.pos() - pos;
                 let index_digit = Self::ceil_log10(l + 1);
-- 
2.43.0

