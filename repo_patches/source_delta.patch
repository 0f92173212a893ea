From 649b85ef082bbdfa4a251c1f7cfe33c20c5c1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 01/18] hooks: cache key constructor for the verification
 harness (cfg verif_hooks)

---
 src/cache.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 38b91a3..855b72a 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -140,3 +140,12 @@ impl<TToken> Cache<usize, TToken> {
         ParseError::new(pointer, error_message)
     }
 }
+
+/// Construction of cache keys for the verification harness; compiled only with `--cfg verif_hooks`.
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+impl CacheKey {
+    pub fn verif_new(key: usize) -> Self {
+        CacheKey(key)
+    }
+}
-- 
2.43.0


From f460fb286727f28ce430f1991ad5aac20f91bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 02/18] fix: constant lexeme matches only when the input starts
 with the constant

---
 src/lexeme/constants.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lexeme/constants.rs b/src/lexeme/constants.rs
index 7c03d57..db43a74 100644
--- a/src/lexeme/constants.rs
+++ b/src/lexeme/constants.rs
@@ -52,9 +52,13 @@ where
         _: &mut Vec<Self::State>,
     ) -> Option<Lex<Self::Token>> {
         self.log_enter();
+        let remaining = &code.value[pointer..];
         let result = self.values.iter().rev().find_map(|(value, token)| {
-            let lex = Lex::new(token.clone(), pointer, pointer + value.len());
-            Some(lex)
+            if !value.is_empty() && remaining.starts_with(value.as_bytes()) {
+                Some(Lex::new(token.clone(), pointer, pointer + value.len()))
+            } else {
+                None
+            }
         });
         self.log_result(pointer, code, &result);
         result
-- 
2.43.0


From de34337db98941fd7a538caa0456d559387aebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 03/18] fix: literal sets fall back to the longest listed
 literal when a longer one is only started

---
 src/field_tree.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/field_tree.rs b/src/field_tree.rs
index 9297fc7..92ac4f1 100644
--- a/src/field_tree.rs
+++ b/src/field_tree.rs
@@ -33,25 +33,20 @@ impl<TToken> FieldTree<TToken> {
 impl<TToken: Clone> FieldTree<TToken> {
     pub fn find(&self, code_part: &[u8]) -> Option<(TToken, usize)> {
         let mut current_field = self;
-        let mut index = 0;
+        let mut last_match = current_field.token.as_ref().map(|t| (t, 0));
 
-        loop {
-            if code_part.len() > index {
-                match current_field
-                    .children
-                    .binary_search_by_key(&code_part[index], |s| s.0)
-                {
-                    Ok(i) => {
-                        index += 1;
-                        current_field = &current_field.children[i].1;
-                    }
-                    Err(_) => {
-                        break current_field.token.as_ref().map(|t| (t.clone(), index));
+        for (index, byte) in code_part.iter().enumerate() {
+            match current_field.children.binary_search_by_key(byte, |s| s.0) {
+                Ok(i) => {
+                    current_field = &current_field.children[i].1;
+                    if let Some(t) = &current_field.token {
+                        last_match = Some((t, index + 1));
                     }
                 }
-            } else {
-                break current_field.token.as_ref().map(|t| (t.clone(), index));
+                Err(_) => break,
             }
         }
+
+        last_match.map(|(t, length)| (t.clone(), length))
     }
 }
-- 
2.43.0


From cddb4ba8b971a5428f450b461031e1afb87af904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 04/18] fix: punctuation lexeme refuses an empty punctuation

---
 src/lexeme/punctuation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexeme/punctuation.rs b/src/lexeme/punctuation.rs
index 13ff636..2810186 100644
--- a/src/lexeme/punctuation.rs
+++ b/src/lexeme/punctuation.rs
@@ -23,6 +23,9 @@ impl<TToken: Debug + Copy, TState> Punctuations<TToken, TState> {
 
     fn add(&mut self, fields: Vec<(&str, TToken)>) -> Result<(), String> {
         for (key, token) in fields {
+            if key.is_empty() {
+                return Err(format!("Punctuation for token {:?} should not be empty.", token));
+            }
             self.field_tree
                 .insert(key.as_bytes(), token)
                 .map_err(|err| {
-- 
2.43.0


From a04f8841ba8957f55e269f5c8ac3357bd4fafb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 05/18] fix: removing a state from an empty state stack fails
 the match instead of aborting

---
 src/lexeme/mixin.rs | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/lexeme/mixin.rs b/src/lexeme/mixin.rs
index 9a37e85..1690a4e 100644
--- a/src/lexeme/mixin.rs
+++ b/src/lexeme/mixin.rs
@@ -8,20 +8,13 @@ fn perform_state_action<TToken, TState: PartialEq + Debug>(
     lexical_data: Lex<TToken>,
     action: Action<TState>,
     state_stack: &mut Vec<TState>,
-    pointer: usize,
-    code: &Code,
 ) -> Option<Lex<TToken>> {
     let shall_discard = match action {
-        Action::Pop { discard } => match state_stack.pop() {
-            Some(_) => discard,
-            None => {
-                panic!(
-                    "Failed to remove a state from empty state stack at {} ({}).",
-                    pointer,
-                    code.obtain_position(pointer)
-                )
-            }
-        },
+        Action::Pop { discard } => {
+            // There is no state to remove for unbalanced input, the match fails.
+            state_stack.pop()?;
+            discard
+        }
         Action::Append { state, discard } => {
             state_stack.push(state);
             discard
@@ -93,13 +86,7 @@ impl<TL: ILexeme> ILexeme for StateMixin<TL> {
                     .actions
                     .binary_search_by_key(&lexical_data.token, |(t, _)| *t)
                 {
-                    Ok(index) => perform_state_action(
-                        lexical_data,
-                        self.actions[index].1,
-                        info,
-                        pointer,
-                        code,
-                    ),
+                    Ok(index) => perform_state_action(lexical_data, self.actions[index].1, info),
                     Err(_) => Some(lexical_data),
                 }
             }
@@ -167,7 +154,7 @@ impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action
             Some(lexical_data) => {
                 let action = (self.thunk_action)(&lexical_data, &code.value, tokenized_stream);
 
-                perform_state_action(lexical_data, action, state_stack, pointer, code)
+                perform_state_action(lexical_data, action, state_stack)
             }
             None => None,
         }
-- 
2.43.0


From d479ad7a34dd73aee66c13afbcc6ca07a36d9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 06/18] fix: tokenizers accept the empty input

---
 src/tokenization.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tokenization.rs b/src/tokenization.rs
index cada259..d7a2bd0 100644
--- a/src/tokenization.rs
+++ b/src/tokenization.rs
@@ -46,6 +46,11 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Ord + Eq> ITokenization
         let mut pointer: usize = 0;
         let eof_pointer: usize = code.value.len();
 
+        if pointer == eof_pointer {
+            tokenized_stream.push(Lex::new(TToken::eof(), eof_pointer, eof_pointer));
+            return Ok(tokenized_stream);
+        }
+
         let mut state_stack = Vec::<TState>::new();
         let mut current_state = self.default_state;
         let mut current_analyzer = match self
@@ -161,6 +166,11 @@ impl<TToken: TokenImpl, TState: Copy + Debug + Default + Ord + Eq> ITokenization
 
         let mut state_stack = Vec::new();
 
+        if pointer == eof_pointer {
+            tokenized_stream.push(Lex::new(TToken::eof(), eof_pointer, eof_pointer));
+            return Ok(tokenized_stream);
+        }
+
         loop {
             match self
                 .lexers
-- 
2.43.0


From 087dccf03916fe03860605f851f7f28e290de979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 07/18] fix: position of a text counts the columns of its last
 line

---
 src/position.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index dfc3031..49dcfea 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -11,16 +11,15 @@ impl Position {
 
 impl From<&[u8]> for Position {
     fn from(code: &[u8]) -> Self {
-        let mut pointer: usize = 0;
+        let mut line_start: usize = 0;
         let mut line: usize = 0;
-        for c in code {
+        for (index, c) in code.iter().enumerate() {
             if *c == b'\n' {
                 line += 1;
+                line_start = index + 1;
             }
-            pointer += 1;
         }
-        let s = unsafe { std::str::from_utf8_unchecked(&code[pointer..]) };
-        Position::new(line + 1, s.len() + 1)
+        Position::new(line + 1, code.len() - line_start + 1)
     }
 }
 
-- 
2.43.0


From 7f5fe0364d934935356886d921705e02a4de25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 08/18] fix: token stream: has_stream and filtered_data_at
 answer for the structural stream

---
 src/filtered_stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index dc2887a..b504905 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -86,8 +86,8 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
             .filtered_stream
             .binary_search_by_key(&code_pointer, |s| self[*s].start)
         {
-            Ok(index) => Ok(&self.original_stream[index]),
-            Err(index) => Err(&self.original_stream[index]),
+            Ok(index) => Ok(&self[self.filtered_stream[index]]),
+            Err(index) => Err(&self[self.filtered_stream[index]]),
         }
     }
     pub fn pointer(&self, filtered_index: FltrPtr) -> usize {
@@ -102,7 +102,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     }
 
     pub fn has_stream(&self, index: FltrPtr) -> bool {
-        self.filtered_stream.len() < index.0
+        index.0 < self.filtered_stream.len()
     }
     pub fn eos_pointer(&self) -> usize {
         self.original_stream[self.original_stream.len() - 1].end
-- 
2.43.0


From 947ad92f21d1d3a9ebc2e22973c6225ce90fa61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 09/18] fix: constant field sets can be validated

---
 src/production/terminals/constant_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/terminals/constant_field.rs b/src/production/terminals/constant_field.rs
index e188046..b5c8aa2 100644
--- a/src/production/terminals/constant_field.rs
+++ b/src/production/terminals/constant_field.rs
@@ -306,6 +306,6 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
         _: HashMap<&'id str, usize>,
         _: &mut HashSet<&'id str>,
     ) -> Result<(), crate::ImplementationError> {
-        todo!()
+        Ok(())
     }
 }
-- 
2.43.0


From 71e0dd3e2c8729da511193b81bd12ba2409b895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 10/18] fix: lookahead, skipped-token and end-of-input
 productions do not consume, so they are nullable

---
 src/production/terminals/eof.rs           | 5 +++--
 src/production/wrappers/look_ahead.rs     | 7 ++++---
 src/production/wrappers/non_structural.rs | 7 ++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/production/terminals/eof.rs b/src/production/terminals/eof.rs
index fa07f70..5ad8b57 100644
--- a/src/production/terminals/eof.rs
+++ b/src/production/terminals/eof.rs
@@ -46,14 +46,15 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for EOFProd<TN, TL> {
     type Token = TL;
 
     fn is_nullable(&self) -> bool {
-        false
+        // End of input is matched without consuming anything.
+        true
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(false)
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TL>) {
diff --git a/src/production/wrappers/look_ahead.rs b/src/production/wrappers/look_ahead.rs
index b6b9563..5b807db 100644
--- a/src/production/wrappers/look_ahead.rs
+++ b/src/production/wrappers/look_ahead.rs
@@ -55,7 +55,8 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        false
+        // A lookahead never consumes.
+        true
     }
 
     fn impl_grammar(
@@ -68,9 +69,9 @@ impl<TProd: IProduction> IProduction for Lookahead<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        visited: HashMap<&'id str, usize>,
+        _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        Ok(true)
     }
 
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index 42ef336..dbb15ee 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -54,7 +54,8 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
     #[inline]
     fn is_nullable(&self) -> bool {
-        self.get_symbol().is_nullable()
+        // Structural tokens are never consumed.
+        true
     }
 
     fn impl_grammar(
@@ -67,9 +68,9 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
 
     fn obtain_nullability<'id>(
         &'id self,
-        visited: HashMap<&'id str, usize>,
+        _: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        self.production.obtain_nullability(visited)
+        Ok(true)
     }
     fn impl_first_set<'prod>(&'prod self, first_set: &mut HashSet<TProd::Token>) {
         self.production.impl_first_set(first_set)
-- 
2.43.0


From eae3b9f8a2aedc6d14e8b0d1708f35ef75211e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 11/18] fix: separated list stops when a round consumes nothing
 and is nullable when its element is

---
 src/production/wrappers/separated_list.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index ace2f80..7b2bf6a 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -38,7 +38,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
     }
 
     fn consume<
-        T: Copy,
+        T: Copy + PartialEq,
         TCache: Copy + Default + Eq + Hash + Ord,
         P: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
         S: Fn(T, &mut Cache<TCache, TP::Node>) -> ParsedResult<T, TP::Node>,
@@ -60,6 +60,10 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
                         Ok(next_success_data) => {
                             children.extend(separator_success_data.children);
                             children.extend(next_success_data.children);
+                            if next_success_data.consumed_index == moved_ptr {
+                                // Nothing consumed, further rounds will not progress either.
+                                break Ok(SuccessData::new(moved_ptr, children));
+                            }
                             moved_ptr = next_success_data.consumed_index;
                         }
                         Err(err) => {
@@ -264,19 +268,19 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
     }
 
     fn is_nullable(&self) -> bool {
-        self.production.is_nullable() && self.separator.is_nullable()
+        self.production.is_nullable()
     }
 
     fn is_nullable_n_hidden(&self) -> bool {
-        self.production.is_nullable_n_hidden() && self.separator.is_nullable_n_hidden()
+        self.production.is_nullable_n_hidden()
     }
 
     fn obtain_nullability<'id>(
         &'id self,
         visited: HashMap<&'id str, usize>,
     ) -> Result<bool, ImplementationError> {
-        Ok(self.production.obtain_nullability(visited.clone())?
-            && self.separator.obtain_nullability(visited)?)
+        // A single element is enough.
+        self.production.obtain_nullability(visited)
     }
 
     fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) {
-- 
2.43.0


From cd5cb8d460ae140a8a9fb2c7ead4639eecd74bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 12/18] fix: grammar validation visits every rule and finds
 left recursion on all paths

---
 src/production/mod.rs                     |  4 +-
 src/production/non_terminals/concat.rs    | 45 ++++++++++++-----------
 src/production/non_terminals/mod.rs       | 17 +++++----
 src/production/non_terminals/suffixes.rs  | 43 +++++++++++-----------
 src/production/non_terminals/union.rs     | 25 ++++++-------
 src/production/wrappers/separated_list.rs | 21 +++++------
 6 files changed, 81 insertions(+), 74 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index e135b94..7edb6ff 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -196,7 +196,7 @@ mod terminals;
 mod wrappers;
 use once_cell::unsync::OnceCell;
 use regex::bytes::Regex;
-use std::{marker::PhantomData, rc::Rc};
+use std::{cell::Cell, marker::PhantomData, rc::Rc};
 
 #[cfg(test)]
 mod __tests__;
@@ -280,6 +280,7 @@ struct NTHelper {
     identifier: &'static str,
     nullability: OnceCell<bool>,
     null_hidden: OnceCell<bool>,
+    left_checked: Cell<bool>,
     debugger: OnceCell<Log<&'static str>>,
 }
 
@@ -716,6 +717,7 @@ pub struct SeparatedList<TP: IProduction, TS: IProduction<Node = TP::Node, Token
     rule_name: OnceCell<&'static str>,
     production: Rc<TP>,
     separator: Rc<TS>,
+    is_separator_visiting: Cell<bool>,
     inclusive: bool,
     debugger: OnceCell<Log<&'static str>>,
 }
diff --git a/src/production/non_terminals/concat.rs b/src/production/non_terminals/concat.rs
index 8f4e7f6..ab843ac 100644
--- a/src/production/non_terminals/concat.rs
+++ b/src/production/non_terminals/concat.rs
@@ -193,28 +193,31 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
         mut connected_set: HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
-        if !self
-            .nt_helper
-            .has_visited(&mut connected_set, visited_prod)?
-        {
-            if self.symbols.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
-            }
+        let first_visit = self.nt_helper.enter(&mut connected_set, visited_prod)?;
+        if self.symbols.get().is_none() {
+            return Err(ImplementationError::new(
+                "InitializationError".into(),
+                format!(
+                    "Symbols are not assigned for {:?}.",
+                    self.nt_helper.identifier
+                ),
+            ));
+        }
 
-            let mut is_nullable: bool = true;
-            for prod in self.get_productions() {
-                if is_nullable {
-                    prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
-                } else {
-                    prod.validate(HashMap::new(), visited_prod)?;
-                }
+        let mut left_count = self.get_productions().len();
+        for (index, prod) in self.get_productions().iter().enumerate() {
+            if !self.nt_helper.left_checked.get() {
+                prod.validate(connected_set.clone(), visited_prod)?;
+            }
+            if !prod.obtain_nullability(HashMap::new())? {
+                left_count = index + 1;
+                break;
+            }
+        }
+        self.nt_helper.left_checked.set(true);
+        if first_visit {
+            for prod in self.get_productions().iter().skip(left_count) {
+                prod.validate(HashMap::new(), visited_prod)?;
             }
         }
         Ok(())
diff --git a/src/production/non_terminals/mod.rs b/src/production/non_terminals/mod.rs
index bbb804b..23d461e 100644
--- a/src/production/non_terminals/mod.rs
+++ b/src/production/non_terminals/mod.rs
@@ -2,6 +2,7 @@ use super::{NTHelper, ProductionLogger};
 use crate::{ImplementationError, Log};
 use once_cell::unsync::OnceCell;
 use std::{
+    cell::Cell,
     collections::{HashMap, HashSet},
     fmt::Write,
 };
@@ -38,6 +39,7 @@ impl NTHelper {
             identifier,
             nullability: OnceCell::new(),
             null_hidden: OnceCell::new(),
+            left_checked: Cell::new(false),
             debugger: OnceCell::new(),
         }
     }
@@ -57,7 +59,8 @@ impl NTHelper {
         }
     }
 
-    fn has_visited<'id>(
+    /// Enter the production in a validation pass. Returns true at the first visit of the pass.
+    fn enter<'id>(
         &'id self,
         connected_set: &mut HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
@@ -68,13 +71,13 @@ impl NTHelper {
                 build_circular_format(self.identifier, &connected_set),
             ))
         } else {
-            if visited_prod.insert(self.identifier) {
-                let l = connected_set.len();
-                connected_set.insert(self.identifier, l);
-                Ok(true)
-            } else {
-                Ok(false)
+            let l = connected_set.len();
+            connected_set.insert(self.identifier, l);
+            let first_visit = visited_prod.insert(self.identifier);
+            if first_visit {
+                self.left_checked.set(false);
             }
+            Ok(first_visit)
         }
     }
     fn assign_debugger(&self, debugger: Log<&'static str>) -> Result<(), String> {
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 3d5935c..0d2b450 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -174,7 +174,7 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         match self.nt_helper.nullability.get() {
             Some(t) => Ok(*t),
             None => {
-                let is_nullable = self.left.is_nullable() && {
+                let is_nullable = self.left.obtain_nullability(visited.clone())? && {
                     let standalone_or_nullable = self.standalone || {
                         let mut is_nullable = false;
                         for (prod, _) in self.get_suffixes() {
@@ -234,29 +234,30 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         mut connected_set: HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
-        if !self
-            .nt_helper
-            .has_visited(&mut connected_set, visited_prod)?
-        {
-            if self.suffixes.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Suffixes symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
-            }
+        let first_visit = self.nt_helper.enter(&mut connected_set, visited_prod)?;
+        if self.suffixes.get().is_none() {
+            return Err(ImplementationError::new(
+                "InitializationError".into(),
+                format!(
+                    "Suffixes symbols are not assigned for {:?}.",
+                    self.nt_helper.identifier
+                ),
+            ));
+        }
 
+        if !self.nt_helper.left_checked.get() {
             self.left.validate(connected_set.clone(), visited_prod)?;
-            let mut is_nullable: bool = self.left.obtain_nullability(HashMap::new())?;
+        }
+        let is_left_nullable = self.left.obtain_nullability(HashMap::new())?;
+        if is_left_nullable && !self.nt_helper.left_checked.get() {
             for (prod, _) in self.get_suffixes() {
-                if is_nullable {
-                    prod.validate(connected_set.clone(), visited_prod)?;
-                    is_nullable = prod.obtain_nullability(HashMap::new())?;
-                } else {
-                    prod.validate(HashMap::new(), visited_prod)?;
-                }
+                prod.validate(connected_set.clone(), visited_prod)?;
+            }
+        }
+        self.nt_helper.left_checked.set(true);
+        if first_visit && !is_left_nullable {
+            for (prod, _) in self.get_suffixes() {
+                prod.validate(HashMap::new(), visited_prod)?;
             }
         }
         Ok(())
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index abf7057..55320bc 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -194,22 +194,21 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         mut connected_set: HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
-        if !self
-            .nt_helper
-            .has_visited(&mut connected_set, visited_prod)?
-        {
-            if self.symbols.get().is_none() {
-                return Err(ImplementationError::new(
-                    "InitializationError".into(),
-                    format!(
-                        "Symbols are not assigned for {:?}.",
-                        self.nt_helper.identifier
-                    ),
-                ));
-            }
+        self.nt_helper.enter(&mut connected_set, visited_prod)?;
+        if self.symbols.get().is_none() {
+            return Err(ImplementationError::new(
+                "InitializationError".into(),
+                format!(
+                    "Symbols are not assigned for {:?}.",
+                    self.nt_helper.identifier
+                ),
+            ));
+        }
+        if !self.nt_helper.left_checked.get() {
             for prod in self.get_productions() {
                 prod.validate(connected_set.clone(), visited_prod)?;
             }
+            self.nt_helper.left_checked.set(true);
         }
         Ok(())
     }
diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 7b2bf6a..9269319 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -4,6 +4,7 @@ use crate::{
     ParsedResult, TokenPtr, SuccessData, TokenStream,
 };
 use once_cell::unsync::OnceCell;
+use std::cell::Cell;
 use std::hash::Hash;
 use std::{
     collections::{HashMap, HashSet},
@@ -18,6 +19,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Separ
             inclusive,
             production: production.clone(),
             separator: separator.clone(),
+            is_separator_visiting: Cell::new(false),
             debugger: OnceCell::new(),
         }
     }
@@ -142,20 +144,17 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
         connected_sets: HashMap<&'id str, usize>,
         visited_prod: &mut HashSet<&'id str>,
     ) -> Result<(), ImplementationError> {
-        // vps.push(&self.separator);
+        self.get_production()
+            .validate(connected_sets.clone(), visited_prod)?;
         if self.get_production().obtain_nullability(HashMap::new())? {
-            self.get_production()
-                .validate(connected_sets.clone(), visited_prod)?;
-            self.get_separator()
-                .validate(connected_sets, visited_prod)?;
+            self.get_separator().validate(connected_sets, visited_prod)
+        } else if self.is_separator_visiting.replace(true) {
+            Ok(())
         } else {
-            self.get_production()
-                .validate(connected_sets, visited_prod)?;
-            self.get_separator()
-                .validate(HashMap::new(), visited_prod)?;
+            let result = self.get_separator().validate(HashMap::new(), visited_prod);
+            self.is_separator_visiting.set(false);
+            result
         }
-
-        Ok(())
     }
 
     fn impl_grammar(
-- 
2.43.0


From d3da77f7b9ce0def612a181ab7481c9ccbb632e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 13/18] fix: skipped tokens at the very start of the input are
 visible to NonStructural

---
 src/production/wrappers/non_structural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/production/wrappers/non_structural.rs b/src/production/wrappers/non_structural.rs
index dbb15ee..87c0a87 100644
--- a/src/production/wrappers/non_structural.rs
+++ b/src/production/wrappers/non_structural.rs
@@ -99,14 +99,14 @@ impl<TProd: IProduction> IProduction for NonStructural<TProd> {
         self.log_entry();
 
         let start_segment = if fltr_ptr > FltrPtr::default() {
-            token_stream.get_token_ptr(fltr_ptr - 1)
+            token_stream.get_token_ptr(fltr_ptr - 1) + 1
         } else {
             TokenPtr::default()
         };
 
         let parsed_data =
             self.get_symbol()
-                .advance_token_ptr(code, start_segment + 1, token_stream, cache)?;
+                .advance_token_ptr(code, start_segment, token_stream, cache)?;
 
         let result = if self.fill_range {
             let end_segment = token_stream.get_token_ptr(fltr_ptr);
-- 
2.43.0


From 79fc4d72a3514a960090188f94c227a6e62cf0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 14/18] fix: Structural continues at the structural token at or
 after the raw position

---
 src/filtered_stream.rs                |  2 +-
 src/production/wrappers/structural.rs | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/filtered_stream.rs b/src/filtered_stream.rs
index b504905..c331073 100644
--- a/src/filtered_stream.rs
+++ b/src/filtered_stream.rs
@@ -147,7 +147,7 @@ impl<'lex, TToken> TokenStream<'lex, TToken> {
     pub fn find_filter_ptr(&self, index: TokenPtr) -> Result<FltrPtr, FltrPtr> {
         match self.filtered_stream.binary_search(&index) {
             Ok(i) => Ok(FltrPtr(i)),
-            Err(i) => Ok(FltrPtr(i)),
+            Err(i) => Err(FltrPtr(i)),
         }
     }
     pub fn last_segment_index(&self, lex_index: &FltrPtr) -> Option<TokenPtr> {
diff --git a/src/production/wrappers/structural.rs b/src/production/wrappers/structural.rs
index e9658f5..355f3b5 100644
--- a/src/production/wrappers/structural.rs
+++ b/src/production/wrappers/structural.rs
@@ -112,8 +112,7 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
         self.log_entry();
 
         let next_fltr_ptr = match token_stream.find_filter_ptr(index) {
-            Ok(fp) => fp + 1,
-            Err(fp) => fp,
+            Ok(fp) | Err(fp) => fp,
         };
 
         let parsed_data =
@@ -127,13 +126,13 @@ impl<TProd: IProduction> IProduction for Structural<TProd> {
             token_stream[parsed_data.consumed_index].start,
         );
 
-        let last_token_ptr = if parsed_data.consumed_index > FltrPtr::default() {
-            token_stream.get_token_ptr(parsed_data.consumed_index - 1)
+        let consumed_token_ptr = if parsed_data.consumed_index > next_fltr_ptr {
+            token_stream.get_token_ptr(parsed_data.consumed_index - 1) + 1
         } else {
-            TokenPtr::default()
+            index
         };
 
-        Ok(SuccessData::new(last_token_ptr + 1, parsed_data.children))
+        Ok(SuccessData::new(consumed_token_ptr, parsed_data.children))
     }
 
     fn advance_ptr(
-- 
2.43.0


From c2e0ce2bbdc3a0dfaeb19b36e2f848708809a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 15/18] fix: tokenized syntax error points at the first token
 not matched

---
 src/cache.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 855b72a..b6ea9a6 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -66,8 +66,7 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
         let pointer = match err {
             ProductionError::Unparsed => {
                 let failed_index = match stream.filtered_index_at(self.max_parsed_point) {
-                    Ok(i) => i + 1,
-                    Err(i) => i,
+                    Ok(i) | Err(i) => i,
                 };
 
                 match stream.get(failed_index) {
-- 
2.43.0


From 7e764c9e28ebb6f4e88d51f2217f6b252d66018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 16/18] fix: syntax error messages are valid UTF-8 for any
 input

---
 src/cache.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index b6ea9a6..1ca809c 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -74,11 +74,8 @@ impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
                         if lex_data.token == TL::eof() {
                             writeln!(error_message, "Unexpected end of file.").unwrap();
                         } else {
-                            let s = unsafe {
-                                std::str::from_utf8_unchecked(
-                                    &code.value[lex_data.start..lex_data.end],
-                                )
-                            };
+                            let s =
+                                String::from_utf8_lossy(&code.value[lex_data.start..lex_data.end]);
                             if cfg!(debug_assertions) {
                                 writeln!(
                                     error_message,
@@ -119,14 +116,13 @@ impl<TToken> Cache<usize, TToken> {
                     (self.get_index(), format!("Unexpected end of file."))
                 } else {
                     let failed_index = self.get_index();
-                    (
-                        failed_index,
-                        format!("Unexpected '{}'.", unsafe {
-                            std::str::from_utf8_unchecked(
-                                &code.value[failed_index..failed_index + 1],
-                            )
-                        },),
-                    )
+                    let remaining = &code.value[failed_index..];
+                    // The offending character can be longer than a byte.
+                    let failed_char = String::from_utf8_lossy(&remaining[..remaining.len().min(4)])
+                        .chars()
+                        .next()
+                        .unwrap_or(std::char::REPLACEMENT_CHARACTER);
+                    (failed_index, format!("Unexpected '{}'.", failed_char))
                 }
             }
             ProductionError::Validation(pointer, message) => (pointer, message),
-- 
2.43.0


From feea34c09d2c6202af2df52f778bdea0771de8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 17/18] fix: printed grammar includes the rules of alternatives
 and suffixes

---
 src/production/non_terminals/suffixes.rs  | 7 +++++++
 src/production/non_terminals/union.rs     | 6 ++++++
 src/production/wrappers/separated_list.rs | 6 +++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index 0d2b450..d21fb01 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -225,6 +225,13 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
             if self.standalone {
                 writeln!(writer, "{:>6} {}", "|", self.left)?;
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            self.left.impl_grammar(writer, visited)?;
+            for (prod, _) in self.get_suffixes() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 55320bc..79cd96f 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -185,6 +185,12 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
                     writeln!(writer, "{:>6} {}", "|", prod)?;
                 }
             }
+            writeln!(writer, "{:>6}", ";")?;
+            writeln!(writer, "")?;
+
+            for prod in self.get_productions() {
+                prod.impl_grammar(writer, visited)?;
+            }
         }
         Ok(())
     }
diff --git a/src/production/wrappers/separated_list.rs b/src/production/wrappers/separated_list.rs
index 9269319..7ba961c 100644
--- a/src/production/wrappers/separated_list.rs
+++ b/src/production/wrappers/separated_list.rs
@@ -124,7 +124,7 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> Displ
                     p = self.get_production(),
                     s = self.get_separator()
                 )?;
-                if !self.inclusive {
+                if self.inclusive {
                     write!(f, " ({})?", self.get_separator())?;
                 }
                 Ok(())
@@ -174,8 +174,8 @@ impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProd
                         s = self.get_separator()
                     )?;
 
-                    if !self.inclusive {
-                        writeln!(writer, " ({})?", self.get_separator()).unwrap();
+                    if self.inclusive {
+                        writeln!(writer, " ({})?", self.get_separator())?;
                     } else {
                         writeln!(writer, "")?;
                     }
-- 
2.43.0


From fcaa977bbfdd6b15e776aa7de665a04d67513374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 18/18] fix: alternatives and suffixes are tried in order,
 whichever the next token

---
 src/production/mod.rs                    |   7 +-
 src/production/non_terminals/suffixes.rs | 273 ++++++++---------------
 src/production/non_terminals/union.rs    | 209 +++++++----------
 3 files changed, 171 insertions(+), 318 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 7edb6ff..09a84b3 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -196,7 +196,7 @@ mod terminals;
 mod wrappers;
 use once_cell::unsync::OnceCell;
 use regex::bytes::Regex;
-use std::{cell::Cell, marker::PhantomData, rc::Rc};
+use std::{cell::Cell, collections::HashSet, marker::PhantomData, rc::Rc};
 
 #[cfg(test)]
 mod __tests__;
@@ -442,7 +442,7 @@ pub struct Concat<TN: NodeImpl = u8, TL: TokenImpl = i8> {
 pub struct Union<TN: NodeImpl = u8, TL: TokenImpl = i8> {
     symbols: OnceCell<Vec<Rc<dyn IProduction<Node = TN, Token = TL>>>>,
     nt_helper: NTHelper,
-    first_set: OnceCell<(bool, Vec<(TL, Vec<usize>)>)>,
+    first_set: OnceCell<Vec<(bool, HashSet<TL>)>>,
 }
 
 pub type TSuffixMap<TN, TL> = (Rc<dyn IProduction<Node = TN, Token = TL>>, TN);
@@ -553,8 +553,7 @@ pub struct Suffixes<TP: IProduction> {
     standalone: bool,
     suffixes: OnceCell<Vec<TSuffixMap<TP::Node, TP::Token>>>,
     nt_helper: NTHelper,
-    suffix_first_set: OnceCell<(bool, Vec<(TP::Token, Vec<usize>)>)>,
-    null_suffix_index: OnceCell<Option<usize>>,
+    suffix_first_set: OnceCell<Vec<(bool, HashSet<TP::Token>)>>,
 }
 
 /// An utility to parse a terminal or non-terminal symbols one or multiple times.
diff --git a/src/production/non_terminals/suffixes.rs b/src/production/non_terminals/suffixes.rs
index d21fb01..935a922 100644
--- a/src/production/non_terminals/suffixes.rs
+++ b/src/production/non_terminals/suffixes.rs
@@ -5,7 +5,7 @@ use crate::{
     production::{Suffixes, TSuffixMap},
     Code,
     ASTNode, Cache, FltrPtr, IProduction, ImplementationError, ParsedResult, ProductionError,
-    SuccessData, TokenImpl, TokenPtr, TokenStream,
+    SuccessData, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -28,7 +28,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -54,7 +53,6 @@ impl<TP: IProduction> Suffixes<TP> {
             standalone,
             nt_helper: NTHelper::new(identifier),
             suffix_first_set: OnceCell::new(),
-            null_suffix_index: OnceCell::new(),
         }
     }
 
@@ -94,47 +92,17 @@ impl<TP: IProduction> Suffixes<TP> {
         })
     }
 
-    fn obtain_first_null_suffix(&self) -> &Option<usize> {
-        self.null_suffix_index.get_or_init(|| {
+    /// First tokens of every suffix and whether it can be parsed without consuming a token.
+    fn obtain_suffixes_set(&self) -> &Vec<(bool, HashSet<TP::Token>)> {
+        self.suffix_first_set.get_or_init(|| {
             self.get_suffixes()
                 .iter()
-                .position(|(prod, _)| prod.is_nullable())
-        })
-    }
-
-    fn obtain_suffixes_set(&self) -> &(bool, Vec<(TP::Token, Vec<usize>)>) {
-        self.suffix_first_set.get_or_init(|| {
-            let mut children_set: HashMap<TP::Token, Vec<usize>> = HashMap::new();
-            for (index, (prod, _)) in self.get_suffixes().iter().enumerate() {
-                let mut child_set = HashSet::new();
-                prod.impl_first_set(&mut child_set);
-                for t in child_set {
-                    let v = children_set.entry(t).or_insert_with(|| Vec::new());
-                    v.push(index);
-                }
-                if prod.is_nullable() {
-                    for (_, v) in &mut children_set {
-                        if v.last().unwrap() != &index {
-                            v.push(index);
-                        }
-                    }
-                    break;
-                }
-            }
-
-            #[cfg(debug_assertions)]
-            for (_, v) in &children_set {
-                let mut s = HashSet::new();
-                for k in v {
-                    if !s.insert(k) {
-                        panic!("Bug! Children set is not unique.")
-                    }
-                }
-            }
-
-            let mut v: Vec<(TP::Token, Vec<usize>)> = children_set.into_iter().collect();
-            v.sort_by_key(|(t, _)| *t);
-            (v.iter().all(|(t, _)| t.is_structural()), v)
+                .map(|(prod, _)| {
+                    let mut child_set = HashSet::new();
+                    prod.impl_first_set(&mut child_set);
+                    (prod.is_nullable(), child_set)
+                })
+                .collect()
         })
     }
 }
@@ -280,110 +248,61 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         #[cfg(debug_assertions)]
         self.nt_helper.log_entry();
 
-        let mut left_success_data =
+        let left_success_data =
             self.left
                 .advance_fltr_ptr(code, fltr_ptr, token_stream, cache)?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
 
-        let suffixes = self.get_suffixes();
-
-        let (is_structural, suffix_first_set) = self.obtain_suffixes_set();
-
         let moved_ptr: FltrPtr = left_success_data.consumed_index;
         let immediate_lex = &token_stream[moved_ptr];
-
-        let mut production_set_index: Option<usize> = None;
-        match suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let last_token_ptr = if moved_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(moved_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_index) = suffix_first_set
-                            .binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_index);
-                        }
-                    }
-                }
+        // Suffixes can also start with the skipped tokens in front of the structural token.
+        let adjacent_lex = if moved_ptr > FltrPtr::default() {
+            &token_stream[token_stream.get_token_ptr(moved_ptr - 1) + 1]
+        } else {
+            &token_stream[TokenPtr::default()]
+        };
+
+        for ((prod, node_value), (is_nullable, first_set)) in
+            self.get_suffixes().iter().zip(self.obtain_suffixes_set())
+        {
+            if !is_nullable
+                && !first_set.contains(&immediate_lex.token)
+                && !first_set.contains(&adjacent_lex.token)
+            {
+                continue;
             }
-        }
+            match prod.advance_fltr_ptr(code, moved_ptr, token_stream, cache) {
+                Ok(data) => {
+                    let mut children = left_success_data.children;
+                    children.extend(data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        token_stream.pointer(fltr_ptr),
+                        token_stream.pointer(data.consumed_index),
+                        Some((
+                            token_stream.get_token_ptr(fltr_ptr),
+                            token_stream.get_token_ptr(data.consumed_index),
+                        )),
+                        children,
+                    );
 
-        match production_set_index {
-            Some(p_index) => {
-                for (prod, node_value) in suffix_first_set[p_index].1.iter().map(|j| &suffixes[*j])
-                {
-                    match prod.advance_fltr_ptr(
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
                         code,
-                        left_success_data.consumed_index,
-                        token_stream,
-                        cache,
-                    ) {
-                        Ok(data) => {
-                            let mut children = left_success_data.children;
-                            children.extend(data.children);
-                            let ast = ASTNode::<TP::Node>::new(
-                                node_value.clone(),
-                                token_stream.pointer(fltr_ptr),
-                                token_stream.pointer(data.consumed_index),
-                                Some((
-                                    token_stream.get_token_ptr(fltr_ptr),
-                                    token_stream.get_token_ptr(data.consumed_index),
-                                )),
-                                children,
-                            );
-
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[data.consumed_index].end,
-                            );
-
-                            return Ok(SuccessData::tree(data.consumed_index, ast));
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[moved_ptr].start, &err);
+                        token_stream[fltr_ptr].start,
+                        token_stream[data.consumed_index].start,
+                    );
 
-                                return Err(err);
-                            }
-                        }
-                    }
+                    return Ok(SuccessData::tree(data.consumed_index, ast));
                 }
-            }
-            None => {
-                if let Some(i) = self.obtain_first_null_suffix() {
-                    let left_bound = token_stream.get_token_ptr(fltr_ptr);
-                    let right_bound = token_stream.get_token_ptr(left_success_data.consumed_index);
-
-                    if !suffixes[*i].0.is_nullable_n_hidden() {
-                        left_success_data.children.push(ASTNode::null(
-                            token_stream[left_success_data.consumed_index].start,
-                            Some(right_bound),
-                        ))
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[moved_ptr].start, &err);
+
+                        return Err(err);
                     }
-                    let tree = ASTNode::new(
-                        suffixes[*i].1.clone(),
-                        token_stream[fltr_ptr].start,
-                        token_stream[left_success_data.consumed_index].start,
-                        Some((left_bound, right_bound)),
-                        left_success_data.children,
-                    );
-                    return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
                 }
             }
         }
@@ -421,61 +340,51 @@ impl<TP: IProduction> IProduction for Suffixes<TP> {
         let mut left_success_data = self.left.advance_token_ptr(code, index, stream, cache)?;
         // let mut parsed_children: Vec<Rc<AST<TProd::Token>>> = Vec::new();
         let moved_ptr: TokenPtr = left_success_data.consumed_index;
-        let suffixes = self.get_suffixes();
-
-        let (_, suffix_first_set) = self.obtain_suffixes_set();
 
         let immediate_lex = &stream[moved_ptr];
+        // A structural suffix starts at the following structural token.
+        let structural_lex = match stream.find_filter_ptr(moved_ptr) {
+            Ok(fp) | Err(fp) => &stream[fp],
+        };
+
+        for ((prod, node_value), (is_nullable, first_set)) in
+            self.get_suffixes().iter().zip(self.obtain_suffixes_set())
+        {
+            if !is_nullable
+                && !first_set.contains(&immediate_lex.token)
+                && !first_set.contains(&structural_lex.token)
+            {
+                continue;
+            }
+            match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
+                Ok(success_data) => {
+                    left_success_data.consumed_index = success_data.consumed_index;
+                    left_success_data.children.extend(success_data.children);
+                    let ast = ASTNode::<TP::Node>::new(
+                        node_value.clone(),
+                        stream[index].start,
+                        stream[success_data.consumed_index].start,
+                        Some((index, success_data.consumed_index)),
+                        left_success_data.children,
+                    );
 
-        if let Ok(i) = suffix_first_set.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            for (prod, node_value) in suffix_first_set[i].1.iter().map(|j| &suffixes[*j]) {
-                match prod.advance_token_ptr(code, moved_ptr, stream, cache) {
-                    Ok(success_data) => {
-                        left_success_data.consumed_index = success_data.consumed_index;
-                        left_success_data.children.extend(success_data.children);
-                        let ast = ASTNode::<TP::Node>::new(
-                            node_value.clone(),
-                            stream[index].start,
-                            stream[success_data.consumed_index].start,
-                            Some((index, success_data.consumed_index)),
-                            left_success_data.children,
-                        );
-
-                        let data = SuccessData::tree(success_data.consumed_index, ast);
+                    let data = SuccessData::tree(success_data.consumed_index, ast);
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        stream[index].start,
+                        stream[data.consumed_index].start,
+                    );
+                    return Ok(data);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            stream[index].start,
-                            stream[data.consumed_index].start,
-                        );
-                        return Ok(data);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, stream[index].start, &err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, stream[index].start, &err);
+                        return Err(err);
                     }
                 }
             }
-        } else {
-            if let Some(i) = self.obtain_first_null_suffix() {
-                if !suffixes[*i].0.is_nullable_n_hidden() {
-                    left_success_data.children.push(ASTNode::null(
-                        stream[left_success_data.consumed_index].start,
-                        Some(left_success_data.consumed_index),
-                    ))
-                }
-                let tree = ASTNode::new(
-                    suffixes[*i].1.clone(),
-                    stream[index].start,
-                    stream[left_success_data.consumed_index].start,
-                    Some((index, left_success_data.consumed_index)),
-                    left_success_data.children,
-                );
-                return Ok(SuccessData::tree(left_success_data.consumed_index, tree));
-            }
         }
         if self.standalone {
             #[cfg(debug_assertions)]
diff --git a/src/production/non_terminals/union.rs b/src/production/non_terminals/union.rs
index 79cd96f..f5d21d0 100644
--- a/src/production/non_terminals/union.rs
+++ b/src/production/non_terminals/union.rs
@@ -2,8 +2,8 @@ use crate::production::NTHelper;
 #[cfg(debug_assertions)]
 use crate::production::ProductionLogger;
 use crate::{
-    production::Union, Code, ASTNode, Cache, FltrPtr, IProduction, ImplementationError,
-    NodeImpl, ParsedResult, ProductionError, SuccessData, TokenImpl, TokenPtr, TokenStream,
+    production::Union, Code, Cache, FltrPtr, IProduction, ImplementationError,
+    NodeImpl, ParsedResult, ProductionError, TokenImpl, TokenPtr, TokenStream,
 };
 
 use once_cell::unsync::OnceCell;
@@ -77,40 +77,17 @@ impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
         })
     }
 
-    fn obtain_first_set(&self) -> &(bool, Vec<(TL, Vec<usize>)>) {
+    /// First tokens of every alternative and whether it can be parsed without consuming a token.
+    fn obtain_first_set(&self) -> &Vec<(bool, HashSet<TL>)> {
         self.first_set.get_or_init(|| {
-            let mut children_set: HashMap<TL, Vec<usize>> = HashMap::new();
-            for (index, prod) in self.get_productions().iter().enumerate() {
-                let mut child_set = HashSet::new();
-                prod.impl_first_set(&mut child_set);
-
-                for t in child_set {
-                    let indexes = children_set.entry(t).or_insert_with(|| Vec::new());
-                    indexes.push(index);
-                }
-                if prod.is_nullable() {
-                    for (_, v) in &mut children_set {
-                        if v.last().unwrap() != &index {
-                            v.push(index);
-                        }
-                    }
-                    break; // We do not want to visit more production if we find nullable production.
-                }
-            }
-
-            #[cfg(debug_assertions)]
-            for (_, v) in &children_set {
-                let mut s = HashSet::new();
-                for k in v {
-                    if !s.insert(k) {
-                        panic!("Bug! Children set is not unique.")
-                    }
-                }
-            }
-
-            let mut v: Vec<(TL, Vec<usize>)> = children_set.into_iter().collect();
-            v.sort_by_key(|(t, _)| *t);
-            (v.iter().all(|(t, _)| t.is_structural()), v)
+            self.get_productions()
+                .iter()
+                .map(|prod| {
+                    let mut child_set = HashSet::new();
+                    prod.impl_first_set(&mut child_set);
+                    (prod.is_nullable(), child_set)
+                })
+                .collect()
         })
     }
 }
@@ -230,74 +207,41 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
         self.nt_helper.log_entry();
 
         let immediate_lex = &token_stream[fltr_ptr];
-
-        let (is_structural, first_sets) = self.obtain_first_set();
-
-        let productions = self.get_productions();
-
-        let mut production_set_index: Option<usize> = None;
-
-        match first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            Ok(p_index) => {
-                production_set_index = Some(p_index);
-            }
-            Err(_) => {
-                if !is_structural {
-                    let last_token_ptr = if fltr_ptr > FltrPtr::default() {
-                        token_stream.get_token_ptr(fltr_ptr - 1)
-                    } else {
-                        TokenPtr::default()
-                    };
-
-                    let current_token_ptr = last_token_ptr + 1;
-
-                    let current_token_lex = &token_stream[current_token_ptr];
-
-                    if !current_token_lex.token.is_structural() {
-                        if let Ok(p_i) =
-                            first_sets.binary_search_by_key(&current_token_lex.token, |(t, _)| *t)
-                        {
-                            production_set_index = Some(p_i);
-                        }
-                    }
-                }
-            }
-        }
-        match production_set_index {
-            Some(p_index) => {
-                for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                    match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
-                        Ok(s) => {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_success(
-                                code,
-                                token_stream[fltr_ptr].start,
-                                token_stream[s.consumed_index].start,
-                            );
-
-                            return Ok(s);
-                        }
-                        Err(err) => {
-                            if err.is_invalid() {
-                                #[cfg(debug_assertions)]
-                                self.nt_helper
-                                    .log_error(code, token_stream[fltr_ptr].start, &err);
-                                // println!("Returning validation Err:{:?}", err);
-                                return Err(err);
-                            }
-                        }
-                    }
-                }
+        // Alternatives can also start with the skipped tokens in front of the structural token.
+        let adjacent_lex = if fltr_ptr > FltrPtr::default() {
+            &token_stream[token_stream.get_token_ptr(fltr_ptr - 1) + 1]
+        } else {
+            &token_stream[TokenPtr::default()]
+        };
+
+        for (prod, (is_nullable, first_set)) in
+            self.get_productions().iter().zip(self.obtain_first_set())
+        {
+            if !is_nullable
+                && !first_set.contains(&immediate_lex.token)
+                && !first_set.contains(&adjacent_lex.token)
+            {
+                continue;
             }
-            None => {
-                if self.is_nullable_n_hidden() {
-                    return Ok(SuccessData::hidden(fltr_ptr));
-                } else if self.is_nullable() {
-                    let tree = ASTNode::null(
+            match prod.advance_fltr_ptr(code, fltr_ptr, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
                         token_stream[fltr_ptr].start,
-                        Some(token_stream.get_token_ptr(fltr_ptr)),
+                        token_stream[s.consumed_index].start,
                     );
-                    return Ok(SuccessData::tree(fltr_ptr, tree));
+
+                    return Ok(s);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
+                        #[cfg(debug_assertions)]
+                        self.nt_helper
+                            .log_error(code, token_stream[fltr_ptr].start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
+                    }
                 }
             }
         }
@@ -324,46 +268,47 @@ impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
 
         let immediate_lex = &token_stream[index];
 
-        let (_, first_sets) = self.obtain_first_set();
+        // A structural alternative starts at the following structural token.
+        let structural_lex = match token_stream.find_filter_ptr(index) {
+            Ok(fp) | Err(fp) => &token_stream[fp],
+        };
+
+        for (prod, (is_nullable, first_set)) in
+            self.get_productions().iter().zip(self.obtain_first_set())
+        {
+            if !is_nullable
+                && !first_set.contains(&immediate_lex.token)
+                && !first_set.contains(&structural_lex.token)
+            {
+                continue;
+            }
+            match prod.advance_token_ptr(code, index, token_stream, cache) {
+                Ok(s) => {
+                    #[cfg(debug_assertions)]
+                    self.nt_helper.log_success(
+                        code,
+                        immediate_lex.start,
+                        token_stream[s.consumed_index].start,
+                    );
 
-        if let Ok(p_index) = first_sets.binary_search_by_key(&immediate_lex.token, |(t, _)| *t) {
-            let productions = self.get_productions();
-            for prod in first_sets[p_index].1.iter().map(|j| &productions[*j]) {
-                match prod.advance_token_ptr(code, index, token_stream, cache) {
-                    Ok(s) => {
+                    return Ok(s);
+                }
+                Err(err) => {
+                    if err.is_invalid() {
                         #[cfg(debug_assertions)]
-                        self.nt_helper.log_success(
-                            code,
-                            immediate_lex.start,
-                            token_stream[s.consumed_index].start,
-                        );
-
-                        return Ok(s);
-                    }
-                    Err(err) => {
-                        if err.is_invalid() {
-                            #[cfg(debug_assertions)]
-                            self.nt_helper.log_error(code, immediate_lex.start, &err);
-                            // println!("Returning validation Err:{:?}", err);
-                            return Err(err);
-                        }
+                        self.nt_helper.log_error(code, immediate_lex.start, &err);
+                        // println!("Returning validation Err:{:?}", err);
+                        return Err(err);
                     }
                 }
             }
         }
 
-        if self.is_nullable_n_hidden() {
-            Ok(SuccessData::hidden(index))
-        } else if self.is_nullable() {
-            let tree = ASTNode::null(token_stream[index].start, Some(index));
-            Ok(SuccessData::tree(index, tree))
-        } else {
-            #[cfg(debug_assertions)]
-            self.nt_helper
-                .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
+        #[cfg(debug_assertions)]
+        self.nt_helper
+            .log_error(code, token_stream[index].start, &ProductionError::Unparsed);
 
-            Err(ProductionError::Unparsed)
-        }
+        Err(ProductionError::Unparsed)
     }
 
     fn advance_ptr(
-- 
2.43.0

