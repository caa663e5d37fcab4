From bc0749cf3bd2fac9b3fe463cbc68be6a3fd0c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 01/17] fix: terminate FIRST on left-recursive productions

---
 src/lalr/first.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lalr/first.rs b/src/lalr/first.rs
index b77ba6d..83872c0 100644
--- a/src/lalr/first.rs
+++ b/src/lalr/first.rs
@@ -1,6 +1,6 @@
 use std::collections::BTreeSet;
 
-use crate::parser::{Grammar, Symbol};
+use crate::parser::{ast::Ident, Grammar, Symbol};
 
 pub fn first<'ast, I>(
     // bump: &'ast Bump,
@@ -14,7 +14,7 @@ where
 
     let mut prev_has_epsilon = true;
     for symbol in symbols {
-        let _ = first_of_symbol(grammar, &mut set, symbol);
+        let _ = first_of_symbol(grammar, &mut set, &mut BTreeSet::new(), symbol);
         prev_has_epsilon = set.remove(&Symbol::Epsilon);
         if !prev_has_epsilon {
             break;
@@ -32,6 +32,7 @@ where
 fn first_of_symbol<'ast>(
     grammar: &'ast Grammar<'ast>,
     set: &mut BTreeSet<&'ast Symbol<'ast>>,
+    visited: &mut BTreeSet<Ident<'ast>>,
     symbol: &'ast Symbol<'ast>,
 ) -> bool {
     let non_terminal = match symbol.as_non_terminal() {
@@ -42,10 +43,15 @@ fn first_of_symbol<'ast>(
         }
     };
 
+    // Left recursion: this non-terminal's productions are already being (or have been) visited
+    if !visited.insert(*non_terminal) {
+        return false;
+    }
+
     let mut added_epsilon = false;
     for (_, production) in grammar.production_iter(*non_terminal) {
         'input_token_iter: for input_token in production.input_tokens.iter() {
-            if !first_of_symbol(grammar, set, input_token) {
+            if !first_of_symbol(grammar, set, visited, input_token) {
                 break 'input_token_iter;
             } else {
                 added_epsilon = true;
-- 
2.43.0


From 2dd57287fbb387e1d6de886620165bd4b94efa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 02/17] fix: shifting one terminal from several items is not a
 conflict

---
 src/lalr/table.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index f54079e..388fef6 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -136,7 +136,12 @@ pub fn make_lalr_tables<'ast>(
                     };
 
                     match action.entry((i as u32, token_idx)) {
-                        Entry::Vacant(entry) => entry.insert(Action::Shift(j as u32)),
+                        Entry::Vacant(entry) => {
+                            entry.insert(Action::Shift(j as u32));
+                        }
+                        // Several items of a state may have their dot before the same terminal,
+                        // they all shift to the same state
+                        Entry::Occupied(entry) if *entry.get() == Action::Shift(j as u32) => (),
                         Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
                     };
                 }
-- 
2.43.0


From 46fc747e9718d24bd20520186e894ef9d368f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 03/17] fix: find the target of a merged state's transition by
 its core

---
 src/lalr/item.rs  | 5 +++++
 src/lalr/table.rs | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lalr/item.rs b/src/lalr/item.rs
index 75d5d57..deb2ea7 100644
--- a/src/lalr/item.rs
+++ b/src/lalr/item.rs
@@ -162,6 +162,11 @@ impl ItemSet {
         h.finish()
     }
 
+    /// Whether the two item sets have the same items, disregarding lookaheads
+    pub fn same_core(&self, other: &Self) -> bool {
+        self.0.keys().eq(other.0.keys())
+    }
+
     /// Form a union of two item sets.
     ///
     /// It is incorrect to call this with two item sets that don't share the same core
diff --git a/src/lalr/table.rs b/src/lalr/table.rs
index 388fef6..ef89b1b 100644
--- a/src/lalr/table.rs
+++ b/src/lalr/table.rs
@@ -109,7 +109,7 @@ pub fn make_lalr_tables<'ast>(
         let lr_idx = match lr_sets.get_index_of(&goto_ia) {
             Some(i) => i,
             None => {
-                return lalr_sets.get_index_of(&goto_ia);
+                return lalr_sets.iter().position(|set| set.same_core(&goto_ia));
             }
         };
         lr_to_lalr.get(&lr_idx).cloned()
@@ -190,7 +190,7 @@ pub fn make_lalr_tables<'ast>(
                         *lr_to_lalr.get(&j).expect("LR -> LALR"),
                     );
                 }
-                None => match lalr_sets.get_index_of(&goto_ia) {
+                None => match lalr_sets.iter().position(|set| set.same_core(&goto_ia)) {
                     Some(j) => {
                         goto.insert((i as u32, *production_name), j);
                     }
-- 
2.43.0


From d5bff2c6430f4624e543a04d66a04cbe2eb4ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 04/17] fix: take token text by character, not byte, positions

---
 src/lex/lex.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 72b5cd8..f4dbb18 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -235,7 +235,8 @@ impl Lex {
                 ..
             }) => {
                 // let val = char_vec.iter().collect::<String>();
-                let val = input[start..(end + 1)].to_string();
+                // `start` and `end` count characters, not bytes
+                let val: String = input.chars().skip(start).take(end + 1 - start).collect();
                 Token::new_with_val(name.clone(), val)
             }
             Some(TokenDef {
-- 
2.43.0


From 4faca6a25e5b9171bd6163741f0fcae0c195106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 05/17] fix: resume lexing after the longest match when the
 input ends inside a longer candidate

---
 src/lex/lex.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index f4dbb18..45a82a3 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -164,12 +164,11 @@ impl Lex {
 
         let mut last_accepting_state: Option<(usize, StateIdx)> = None;
 
-        while forward < chars.len() {
-            let c = chars[forward];
-
-            let matching_edge = match self.dfa.edge_iter(state_idx) {
-                Some(mut edge_iter) => edge_iter.find(|edge| edge.label.matches(c)),
-                None => None,
+        while lexeme_begin < chars.len() {
+            // The end of the input matches no edge
+            let matching_edge = match (chars.get(forward), self.dfa.edge_iter(state_idx)) {
+                (Some(c), Some(mut edge_iter)) => edge_iter.find(|edge| edge.label.matches(*c)),
+                _ => None,
             };
 
             match matching_edge {
@@ -198,9 +197,10 @@ impl Lex {
                         state_idx = StateIdx(0);
 
                         last_accepting_state = None;
-                    } else if Self::is_whitespace(c) && forward == lexeme_begin {
-                        forward += 1;
+                    } else if Self::is_whitespace(chars[lexeme_begin]) {
                         lexeme_begin += 1;
+                        forward = lexeme_begin;
+                        state_idx = StateIdx(0);
                     } else {
                         break;
                     }
@@ -208,16 +208,6 @@ impl Lex {
             }
         }
 
-        if let Some((_last_accepting_idx, last_accepting_state_idx)) = last_accepting_state {
-            println!("LEXEME_BEGIN: {} FORWARD: {}", lexeme_begin, _last_accepting_idx);
-            tokens.push(self.make_tok(
-                input,
-                lexeme_begin,
-                _last_accepting_idx,
-                last_accepting_state_idx,
-            ));
-        }
-
         tokens
     }
 
-- 
2.43.0


From d2ac0714eff211c387d13ab391bb99cefac270dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 06/17] fix: refuse to parse input the lexer could not consume

---
 src/lalr.rs    | 5 ++++-
 src/lex/lex.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index 420d83d..1519312 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -42,7 +42,10 @@ impl<'ast> Lalr<'ast> {
     }
 
     pub fn parse(&self, input: &str) -> String {
-        let tokens = self.lexer.lex(input);
+        let (tokens, consumed) = self.lexer.lex_prefix(input);
+        if let Some(c) = input.chars().nth(consumed) {
+            panic!("Invalid symbol: {:?} at index {}", c, consumed);
+        }
         let tokens_with_idx = self.lexer.convert_tokens(tokens);
 
         self.parse_impl(&tokens_with_idx)
diff --git a/src/lex/lex.rs b/src/lex/lex.rs
index 45a82a3..7912069 100644
--- a/src/lex/lex.rs
+++ b/src/lex/lex.rs
@@ -155,6 +155,12 @@ impl Lex {
     }
 
     pub fn lex(&self, input: &str) -> Vec<Token> {
+        self.lex_prefix(input).0
+    }
+
+    /// Also returns the number of characters consumed, which is less than the length of the input
+    /// if lexing stopped at an invalid symbol
+    pub fn lex_prefix(&self, input: &str) -> (Vec<Token>, usize) {
         let chars: Vec<char> = input.chars().collect();
         let mut tokens = vec![];
         let mut state_idx = StateIdx(0);
@@ -208,7 +214,7 @@ impl Lex {
             }
         }
 
-        tokens
+        (tokens, lexeme_begin)
     }
 
     fn make_tok(
-- 
2.43.0


From d204e9916f5a59ba7e1db6c4f77e3fccade3ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 07/17] fix: DFA::test accepts exactly full matches

---
 src/lex/dfa.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index c2d8e45..92dcd63 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -101,7 +101,7 @@ impl DFA {
 
     pub fn test(&self, s: &str) -> bool {
         match self.simulate(s) {
-            Some(eaten) => eaten == s.len(),
+            Some(eaten) => eaten == s.chars().count(),
             _ => false,
         }
     }
@@ -122,7 +122,7 @@ impl DFA {
             }
         }
 
-        if self.dfa_to_nfa.contains_key(&state_idx) {
+        if self.dfa_state_is_accepting(state_idx) {
             Some(eaten)
         } else {
             None
@@ -166,7 +166,7 @@ impl DFABuilder {
         let mut d_states = vec![Self::hashset_to_btreeset(
             nfa.epsilon_closure([NFA::START_IDX].into()),
         )];
-        let mut dfa_to_nfa = BTreeMap::new();
+        let mut dfa_to_nfa = BTreeMap::from([(DFA::START_IDX, d_states[0].clone())]);
 
         loop {
             // Loop while there is an unmarked state set
-- 
2.43.0


From 48fd42b0b820bb6a118c2d01ff1159d185ed266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 08/17] fix: named regex symbols generate a valid type
 constraint

---
 src/codegen/parse_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index ec90cc2..49f8db6 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -514,7 +514,7 @@ export type Token =
                             named_sym.name
                         ));
                         cond_stack.push(format!(
-                            "__{}['token']['value'] extends infer {} extendsstring",
+                            "__{}['token']['value'] extends infer {} extends string",
                             named_sym.name, named_sym.name
                         ));
                         else_stack.push(format!(
-- 
2.43.0


From d705102667ec96b87c9a4c8761aa55948aba93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 09/17] fix: escape token texts in the generated modules

---
 src/codegen.rs           | 17 +++++++++++++++++
 src/codegen/lex_gen.rs   | 13 ++++++++-----
 src/codegen/parse_gen.rs | 11 ++++++++---
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 89ddac7..ffc036a 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -1,2 +1,19 @@
 pub mod lex_gen;
 pub mod parse_gen;
+
+/// Escapes `s` so that it can be put in a quoted Typescript string
+fn escape_str(s: &str) -> String {
+    let mut ret = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' | '"' | '\'' => {
+                ret.push('\\');
+                ret.push(c);
+            }
+            '\n' => ret.push_str("\\n"),
+            '\r' => ret.push_str("\\r"),
+            _ => ret.push(c),
+        }
+    }
+    ret
+}
diff --git a/src/codegen/lex_gen.rs b/src/codegen/lex_gen.rs
index cdc14bd..3fcc996 100644
--- a/src/codegen/lex_gen.rs
+++ b/src/codegen/lex_gen.rs
@@ -27,10 +27,13 @@ fn nice_case(s: &str) -> String {
 mod ts {
     use std::collections::{BTreeMap, BTreeSet};
 
-    use crate::lex::{
-        dfa::DFA,
-        lex::Lex,
-        nfa::{Match, StateIdx},
+    use crate::{
+        codegen::escape_str,
+        lex::{
+            dfa::DFA,
+            lex::Lex,
+            nfa::{Match, StateIdx},
+        },
     };
 
     #[derive(Clone, Debug)]
@@ -100,7 +103,7 @@ mod ts {
                 
                 "#,
                     i,
-                    kind,
+                    escape_str(kind),
                     if *has_value { "true" } else { "false" }
                 ));
             }
diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 49f8db6..646432a 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -8,6 +8,7 @@ mod ts {
     use bumpalo::Bump;
 
     use crate::{
+        codegen::escape_str,
         lalr::{item::ProductionIdx, table, Lalr},
         parser::{
             ast::{self, Ident, InputSymbol, NamedSymbol},
@@ -203,7 +204,9 @@ export type Token =
                     w,
                     r#"
                 {}: {{ kind: "{}", value: "{}" }}"#,
-                    i, kind, value
+                    i,
+                    kind,
+                    escape_str(value)
                 )?;
             }
 
@@ -289,7 +292,7 @@ export type Token =
                     Symbol::Epsilon => continue,
                     Symbol::Eof => "EOF",
                 };
-                writeln!(w, "'{}': {}", name, idx)?;
+                writeln!(w, "'{}': {}", escape_str(name), idx)?;
             }
             w.write_str("\n}\n")?;
             Ok(())
@@ -497,7 +500,9 @@ export type Token =
                         ));
                         cond_stack.push(format!(
                             "__{}['token']['value'] extends infer {} extends '{}'",
-                            named_sym.name, named_sym.name, str_lit,
+                            named_sym.name,
+                            named_sym.name,
+                            escape_str(str_lit),
                         ));
                         else_stack.push(format!(
                             r#"`error: not a token (pos \`{}\`, Action{})`"#,
-- 
2.43.0


From c6b2a4d83b736501c98b83a5dc907f9b06d0e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 10/17] fix: unescape string literals of the grammar

---
 src/parser/support.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/support.rs b/src/parser/support.rs
index f770b05..6d326be 100644
--- a/src/parser/support.rs
+++ b/src/parser/support.rs
@@ -16,12 +16,16 @@ impl<'ast> ParserSupport<'ast> {
     }
 
     pub fn alloc_quoted_str<'a>(&self, s: &'a str) -> &'ast mut str {
-        self.ast.alloc(
-            s.chars()
-                .skip(1)
-                .take(s.chars().count() - 2)
-                .collect::<String>(),
-        )
+        let mut ret = String::new();
+        let mut chars = s.chars().skip(1).take(s.chars().count() - 2);
+        while let Some(c) = chars.next() {
+            match c {
+                // The only escapes are `\\` and `\"`
+                '\\' => ret.extend(chars.next()),
+                _ => ret.push(c),
+            }
+        }
+        self.ast.alloc(ret)
     }
 
     pub fn alloc_ts_code<'a>(&self, ts_code_with_paren: &'a str) -> &'ast mut str {
-- 
2.43.0


From d9e2134c444fa48a597ae4e934e0feda70606a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 11/17] fix: compile regexes with empty parts

---
 src/lex/nfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/nfa.rs b/src/lex/nfa.rs
index a5fb31f..ac717d3 100644
--- a/src/lex/nfa.rs
+++ b/src/lex/nfa.rs
@@ -102,7 +102,7 @@ impl NFA {
 
     fn compile(&mut self, regex: &RegexHir, accept: StateIdx) -> OptionUsize<StateIdx> {
         match regex.kind() {
-            HirKind::Empty => OptionUsize::none(),
+            HirKind::Empty => OptionUsize::some(accept),
             HirKind::Literal(lit) => self.compile_match(
                 match lit {
                     Literal::Unicode(c) => Match::char(*c),
-- 
2.43.0


From 7779f3063c46f90fd33492e388869f1240f9d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 12/17] fix: generate a type for productions with an empty
 annotation

---
 src/codegen/parse_gen.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 646432a..90ef87e 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -304,10 +304,15 @@ export type Token =
             // Symbol variants:
             // type S = { kind: "S"; left: C; right: C };
             for (_, symbol_variant) in &self.symbol_variants {
+                // An empty annotation `()` puts no constraint on the value
+                let ts_code = match symbol_variant.ts_code.trim() {
+                    "" => "any",
+                    _ => symbol_variant.ts_code,
+                };
                 writeln!(
                     buf,
                     "type {} = {}",
-                    symbol_variant.production_name, symbol_variant.ts_code
+                    symbol_variant.production_name, ts_code
                 )?;
             }
 
-- 
2.43.0


From bd1c075c1b14f69e809467d1f81a399eea3c20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 13/17] fix: no character is in a range that starts beyond the
 arithmetic tables

---
 ts/lex.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 7632737..69b0a9f 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -61,10 +61,17 @@ type TokenDefToToken<
     : never
   : never;
 
+// `Gte` is `never` when `from` is beyond the arithmetic tables, and so beyond every supported
+// character. When `to` is beyond the tables the range has no upper bound as far as supported
+// characters go.
 type RangeContains<range extends CharRange, labelIdx extends number> = [
-  U.Gte<labelIdx, range["from"]>,
-  U.Lt<labelIdx, range["to"]>
-] extends [true, true]
+  U.Gte<labelIdx, range["from"]>
+] extends [never]
+  ? false
+  : [U.Gte<labelIdx, range["from"]>, U.Lt<labelIdx, range["to"]>] extends [
+      true,
+      true
+    ]
   ? true
   : false;
 
-- 
2.43.0


From 22b6c896899a52cf6b78bbf9d8212437c2212eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 14/17] fix: type-level lexing resumes after the longest match
 and refuses an invalid tail

---
 ts/lex.ts | 194 ++++++++++++++++++++++++------------------------------
 1 file changed, 85 insertions(+), 109 deletions(-)

diff --git a/ts/lex.ts b/ts/lex.ts
index 69b0a9f..d6f59d4 100644
--- a/ts/lex.ts
+++ b/ts/lex.ts
@@ -102,6 +102,15 @@ type StringToCharList<
     : `invalid char: ${char}`
   : U.Reverse<ret>;
 
+// The end of the input matches no edge
+type NextStateAt<
+  fullInput extends string[],
+  forward extends number,
+  stateIdx extends number
+> = fullInput[forward] extends keyof CharTable
+  ? NextState<CharTable[fullInput[forward]], States[stateIdx], 0>
+  : undefined;
+
 type LexImpl<
   inputStr extends string,
   fullInput extends string[],
@@ -111,115 +120,82 @@ type LexImpl<
   forward extends number,
   charBuf extends string[],
   lastAcceptingState extends [forward: number, stateIdx: number] | undefined
-> = fullInput[forward] extends `${infer char}`
-  ? char extends Characters[keyof Characters]
-    ? NextState<
-        CharTable[char],
-        States[stateIdx],
-        0
-      > extends infer maybeNewStateIdx
-      ? maybeNewStateIdx extends number
-        ? // We have a matching edge
-          LexImpl<
-            inputStr,
-            fullInput,
-            maybeNewStateIdx,
-            tokens,
-            lexemeBegin,
-            U.Succ<forward>,
-            charBuf,
-            StateAccepts<States[maybeNewStateIdx]> extends true
-              ? [forward, maybeNewStateIdx]
-              : lastAcceptingState
-          >
-        : // No matching edge
-        lastAcceptingState extends [
-            lastAcceptingIdx: number,
-            lastAcceptingStateIdx: number
-          ]
-        ? lastAcceptingState[1] extends keyof DFAtoNFA
-          ? LexImpl<
-              inputStr,
-              fullInput,
-              0,
-              [
-                TokenDefToToken<
-                  lastAcceptingState[1],
-                  inputStr,
-                  lexemeBegin,
-                  lastAcceptingState[0]
-                >,
-                ...tokens
-              ],
-              U.Succ<lastAcceptingState[0]>,
-              U.Succ<lastAcceptingState[0]>,
-              charBuf,
-              undefined
-            >
-          : "unreachable: accepting state idx should always be a keyof Tokens"
-        : [U.IsWhitespace<char>, U.Eq<forward, lexemeBegin>] extends [
-            true,
-            true
-          ]
-        ? LexImpl<
-            inputStr,
-            fullInput,
-            stateIdx,
-            tokens,
-            U.Succ<lexemeBegin>,
-            U.Succ<forward>,
-            charBuf,
-            lastAcceptingState
-          >
-        : // otherwise it's an invalid symbol, break
+> = NextStateAt<fullInput, forward, stateIdx> extends infer maybeNewStateIdx
+  ? maybeNewStateIdx extends number
+    ? // We have a matching edge
+      LexImpl<
+        inputStr,
+        fullInput,
+        maybeNewStateIdx,
+        tokens,
+        lexemeBegin,
+        U.Succ<forward>,
+        charBuf,
+        StateAccepts<States[maybeNewStateIdx]> extends true
+          ? [forward, maybeNewStateIdx]
+          : lastAcceptingState
+      >
+    : // No matching edge
+    lastAcceptingState extends [
+        lastAcceptingIdx: number,
+        lastAcceptingStateIdx: number
+      ]
+    ? lastAcceptingState[1] extends keyof DFAtoNFA
+      ? LexImpl<
+          inputStr,
+          fullInput,
+          0,
           [
-            tokens,
-            lastAcceptingState,
-            lexemeBegin,
-            `invalid symbol: \`${char}\` at index ${forward}`
-          ]
-      : "unreachable: inferring `maybeNewStateIdx` should always work"
-    : `invalid char: ${char}`
-  : [tokens, lastAcceptingState, lexemeBegin, undefined];
+            TokenDefToToken<
+              lastAcceptingState[1],
+              inputStr,
+              lexemeBegin,
+              lastAcceptingState[0]
+            >,
+            ...tokens
+          ],
+          U.Succ<lastAcceptingState[0]>,
+          U.Succ<lastAcceptingState[0]>,
+          charBuf,
+          undefined
+        >
+      : "unreachable: accepting state idx should always be a keyof Tokens"
+    : fullInput[lexemeBegin] extends `${infer char}`
+    ? U.IsWhitespace<char> extends true
+      ? LexImpl<
+          inputStr,
+          fullInput,
+          0,
+          tokens,
+          U.Succ<lexemeBegin>,
+          U.Succ<lexemeBegin>,
+          charBuf,
+          undefined
+        >
+      : // otherwise it's an invalid symbol, break
+        `invalid symbol: \`${char}\` at index ${lexemeBegin}`
+    : // the whole input has been consumed
+      tokens
+  : "unreachable: inferring `maybeNewStateIdx` should always work";
 
-export type Lex<fullInput extends string> = LexImpl<
+export type Lex<fullInput extends string> = StringToCharList<
   fullInput,
-  StringToCharList<fullInput, []>,
-  0,
-  [],
-  0,
-  0,
-  [],
-  undefined
-> extends [
-  infer tokens,
-  infer lastAcceptingState,
-  infer lexemeBegin,
-  infer error
-]
-  ? error extends string
-    ? error
-    : lastAcceptingState extends [forward: number, stateIdx: number]
-    ? tokens extends any[]
-      ? lastAcceptingState[1] extends number
-        ? lexemeBegin extends number
-          ? U.Reverse<
-              [
-                { kind: "EOF" },
-                // `lexemeBegin: ${lexemeBegin} forward: ${lastAcceptingState[0]}`,
-                TokenDefToToken<
-                  lastAcceptingState[1],
-                  fullInput,
-                  lexemeBegin,
-                  lastAcceptingState[0]
-                >,
-                ...tokens
-              ]
-            >
-          : "unreachable: `lexemeBegin` begin should always be a number"
-        : lastAcceptingState
-      : "unreachable: tokens should be an array"
-    : tokens extends any[]
-    ? U.Reverse<[{ kind: "EOF" }, ...tokens]>
-    : "unreachable: tokens should be an array"
-  : "unreachable: inferring `tokens` and `lastAcceptingState` should always work";
+  []
+> extends infer chars
+  ? chars extends string[]
+    ? LexImpl<
+        fullInput,
+        chars,
+        0,
+        [],
+        0,
+        0,
+        [],
+        undefined
+      > extends infer tokens
+      ? tokens extends any[]
+        ? U.Reverse<[{ kind: "EOF" }, ...tokens]>
+        : tokens // else it's an error message so return it
+      : "unreachable: inferring `tokens` should always work"
+    : chars // else it's an error message so return it
+  : "unreachable: inferring `chars` should always work";
-- 
2.43.0


From d0f4515b9291ea8c8388b3743d278551054bf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 15/17] fix: split overlapping character ranges completely

---
 src/lex/dfa.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lex/dfa.rs b/src/lex/dfa.rs
index 92dcd63..6781859 100644
--- a/src/lex/dfa.rs
+++ b/src/lex/dfa.rs
@@ -337,11 +337,12 @@ fn add_range(range: &Match, start_index: usize, disjoint_ranges: &mut Vec<Match>
             assert!(low_range.is_disjoint(&max_range));
             assert!(mid_range.is_disjoint(&max_range));
 
-            // Replace the existing range with the low range, and then
-            // add the mid and max ranges in. (The low range may be
-            // empty, but we'll prune that out later.)
-            disjoint_ranges[index] = low_range;
-            add_range(&mid_range, index + 1, disjoint_ranges);
+            // Replace the existing range with the mid range, which is part of
+            // it and so overlaps no other, and then add the low and max ranges
+            // in. (They may be part of the new range only, and overlap with
+            // later ranges.)
+            disjoint_ranges[index] = mid_range;
+            add_range(&low_range, index + 1, disjoint_ranges);
             add_range(&max_range, index + 1, disjoint_ranges);
         }
 
-- 
2.43.0


From a089ca329564e62d6fe02493aab2ff4fed193cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 16/17] fix: a mapping that ends in a line comment does not
 swallow generated code

---
 src/codegen/parse_gen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 90ef87e..2cc0784 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -386,9 +386,10 @@ export type Token =
             let mut args = String::new();
             self.call_impl_args(&mut args)?;
 
+            // The code may end in a line comment
             write!(
                 buf,
-                "{{ kind: '{}', value: {} }},",
+                "{{ kind: '{}', value: {}\n }},",
                 self.production_name, self.action_impl.code
             )?;
             buf.push_str("...newStack]");
-- 
2.43.0


From 7005cb48b1127639fc3d65b69d5dfb1991a7db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 17/17] fix: a binding named like a production does not hide
 the production's type

---
 src/codegen/parse_gen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen/parse_gen.rs b/src/codegen/parse_gen.rs
index 2cc0784..ff1913c 100644
--- a/src/codegen/parse_gen.rs
+++ b/src/codegen/parse_gen.rs
@@ -489,8 +489,9 @@ export type Token =
 
                 match named_sym.param {
                     ActionImplParam::NonTerminal(non_terminal) => {
+                        // Qualified, because a binding may have the same name as a production
                         cond_stack.push(format!(
-                            "__{} extends {{ kind : \"{}\", value: infer {} extends {} }}",
+                            "__{} extends {{ kind : \"{}\", value: infer {} extends actions.{} }}",
                             named_sym.name, non_terminal, named_sym.name, non_terminal
                         ));
 
-- 
2.43.0

