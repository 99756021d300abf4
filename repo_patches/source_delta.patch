From 37a6b3d5b86592a757401533c0e117ed0f4aaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 1/6] fix: compute FOLLOW across two adjacent occurrences of
 the same symbol

In S -> A A eof, A -> a the second A follows the first one, so FOLLOW(A) has
to contain FIRST(A). The pair was skipped because both symbols are equal.
---
 src/grammar/first_follow_symbols.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/grammar/first_follow_symbols.rs b/src/grammar/first_follow_symbols.rs
index f744611..a4dff6c 100644
--- a/src/grammar/first_follow_symbols.rs
+++ b/src/grammar/first_follow_symbols.rs
@@ -395,26 +395,24 @@ impl<T: Clone + Eq + Hash> FirstFollowSymbols<T> {
         let next_symbol_index: usize = production_output_index + 1;
         let next_symbol = production.output.get(next_symbol_index).unwrap();
 
-        if current_symbol.ne(next_symbol) {
-            let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
+        let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
 
-            if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-                first_indexes.clear();
-            }
+        if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+            first_indexes.clear();
+        }
 
-            first_indexes.push(next_symbol_index);
+        first_indexes.push(next_symbol_index);
 
-            let mut current_symbol_follow_symbols =
-                follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
+        let mut current_symbol_follow_symbols =
+            follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
 
-            follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
-                grammar,
-                first_symbols_map,
-                production,
-                first_indexes,
-                &mut current_symbol_follow_symbols,
-            );
-        }
+        follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
+            grammar,
+            first_symbols_map,
+            production,
+            first_indexes,
+            &mut current_symbol_follow_symbols,
+        );
 
         follow_symbols_updated
     }
-- 
2.43.0


From f2726e63598c2d2144d91cb68538ba3f01faf8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 2/6] fix: fail instead of panicking when the input ends before
 a non-terminal

S -> a A, A -> b with the single token a panicked on a missing token instead
of reporting the failed symbol.
---
 src/parser/recursive_descent_parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 91c49f5..4a1877f 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -440,10 +440,12 @@ impl<
         token_position: usize,
         is_single_path: bool,
     ) -> ParseSymbolResult<TLex, TSyntax> {
-        let current_token_symbol = tokens.get(token_position).unwrap();
-
-        let token_productions =
-            self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type);
+        let token_productions = match tokens.get(token_position) {
+            Some(current_token_symbol) => {
+                self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type)
+            }
+            None => vec![],
+        };
 
         let token_productions_iter = token_productions.into_iter();
 
-- 
2.43.0


From d09a2d9983b70ea0767e5e0271ff851ef8cdb0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 3/6] fix: keep parsed non-terminals in the failure report

A parsed symbol without another matching alternative was dropped from the
failed production: S -> A b c, A -> a with the tokens a x reported nothing as
parsed, and b both as failed and as pending.
---
 src/parser/recursive_descent_parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 4a1877f..3ba2836 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -564,7 +564,12 @@ impl<
                                 states.push(State::Parsing(state));
                                 states_pop_success = true;
                             }
-                            _ => {}
+                            _ => {
+                                reversed_failed_symbols.push(State::Parsing(ParsingState {
+                                    prod_iter_option: None,
+                                    ..parsing_state
+                                }));
+                            }
                         }
                     } else {
                         reversed_failed_symbols.push(State::Parsing(parsing_state));
-- 
2.43.0


From 70edf5a0c8ff94839f50834aec1a47ffb9eb4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 4/6] fix: compute the LL(1) table from FIRST of the whole
 right side and FOLLOW of the left side

---
 .../recursive_descent_parser_transitions.rs   | 94 ++++---------------
 1 file changed, 19 insertions(+), 75 deletions(-)

diff --git a/src/parser/recursive_descent_parser_transitions.rs b/src/parser/recursive_descent_parser_transitions.rs
index 5da0a98..87551af 100644
--- a/src/parser/recursive_descent_parser_transitions.rs
+++ b/src/parser/recursive_descent_parser_transitions.rs
@@ -74,93 +74,37 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
      *
      * -----------------------------------------------------------------------------
      *
-     * Unfortunately we don't compute FIRST(α). Fortunately, $ is handled as an
-     * additional terminal symbol in the grammar. Keeping this in mind, there's a
-     * way to determine all the terminal symbols a in which M[A; a] = A → α
-     *
-     * -----------------------------------------------------------------------------
-     *
-     * Alternative algorithm:
-     *
-     * INPUT: Grammar G.
-     * OUTPUT: Parsing table M.
-     * METHOD: For each production A → Bα of the grammar, do the following:
-     *
-     *     1. For each terminal a in FIRST(B), add A → α to M[A; a].
-     *     2.1. If B is terminal and B is ε, then for each terminal b in FOLLOW(A),
-     *          add A → α to M[A; b]
-     *     2.2. If B is non terminal and ε is in FIRST(B), then for each terminal b
-     *          in FOLLOW(B), add A → α to M[A; b].
+     * Fortunately, $ is handled as an additional terminal symbol in the grammar, so
+     * the second sentence of step 2 is not needed. FIRST(α) is computed from the
+     * FIRST sets of the symbols of α, up to the first one which can't derive ε.
      */
     fn inner_from_get_production_first_symbols(
         grammar: &ContextFreeGrammar<T>,
         production: &ContextFreeGrammarProduction<T>,
         first_follow_symbols: &FirstFollowSymbols<T>,
     ) -> HashSet<T> {
-        let production_first_symbols: HashSet<T>;
+        let mut production_first_symbols: HashSet<T> = HashSet::new();
 
-        let symbol = production.output.get(0).unwrap();
-
-        let symbol_first_symbols = first_follow_symbols.get_first_symbols(&symbol).unwrap();
-
-        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_epsilon_first(
-                    grammar,
-                    production,
-                    first_follow_symbols,
-                    symbol,
-                    symbol_first_symbols,
-                );
-        } else {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_non_epsilon_first(
-                    symbol_first_symbols,
-                );
-        }
+        for symbol in &production.output {
+            let symbol_first_symbols = first_follow_symbols.get_first_symbols(symbol).unwrap();
 
-        production_first_symbols
-    }
+            symbol_first_symbols
+                .iter()
+                .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
+                .for_each(|symbol| {
+                    production_first_symbols.insert(symbol.clone());
+                });
 
-    fn inner_from_get_production_first_symbols_on_epsilon_first(
-        grammar: &ContextFreeGrammar<T>,
-        production: &ContextFreeGrammarProduction<T>,
-        first_follow_symbols: &FirstFollowSymbols<T>,
-        symbol: &T,
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
-
-        symbol_first_symbols
-            .iter()
-            .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
-            .for_each(|symbol| {
-                production_first_symbols.insert(symbol.clone());
-            });
-
-        let symbol_follow_symbols: &HashSet<T>;
-
-        if grammar.get_epsilon_symbol().eq(symbol) {
-            symbol_follow_symbols = first_follow_symbols
-                .get_follow_symbols(&production.input)
-                .unwrap();
-        } else {
-            symbol_follow_symbols = first_follow_symbols.get_follow_symbols(&symbol).unwrap();
+            if !symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+                return production_first_symbols;
+            }
         }
 
-        symbol_follow_symbols.iter().for_each(|symbol| {
-            production_first_symbols.insert(symbol.clone());
-        });
-
-        production_first_symbols
-    }
-
-    fn inner_from_get_production_first_symbols_on_non_epsilon_first(
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
+        let input_follow_symbols = first_follow_symbols
+            .get_follow_symbols(&production.input)
+            .unwrap();
 
-        symbol_first_symbols.iter().for_each(|symbol| {
+        input_follow_symbols.iter().for_each(|symbol| {
             production_first_symbols.insert(symbol.clone());
         });
 
-- 
2.43.0


From 0e7deab3f6f05ba2bb90697f3981ce7dc12adbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 5/6] fix: do not consult the error solver while retrying a
 parsed symbol

---
 src/parser/recursive_descent_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 3ba2836..b9aeb00 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -343,7 +343,7 @@ impl<
                     states.push(State::Parsing(parsing_state));
                 }
                 ParseSymbolResult::Err(failed_symbol) => {
-                    match self.inner_parse_pop_states(&mut states, tokens, is_single_path) {
+                    match self.inner_parse_pop_states(&mut states, tokens) {
                         Some(production_parsing_states) => {
                             return Self::inner_parse_from_tokens_production_build_failed_symbol(
                                 failed_symbol,
@@ -533,7 +533,6 @@ impl<
         &self,
         states: &mut Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>,
         tokens: &Vec<Token<TLex, TSyntax>>,
-        is_single_path: bool,
     ) -> Option<Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>> {
         let mut reversed_failed_symbols: Vec<
             State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>,
@@ -556,7 +555,7 @@ impl<
                             tokens,
                             parsing_state.initial_token_position,
                             productions_iterator,
-                            is_single_path,
+                            false,
                         );
 
                         match state_option {
-- 
2.43.0


From 08ccb9a2d6e7fff497213a5419155a2edb6ad2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 6/6] fix: ask the error solver only after every path has
 failed

---
 src/parser/recursive_descent_parser.rs | 35 +++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index b9aeb00..c8538b0 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -127,22 +127,14 @@ impl<
             panic!("Expecting at least one token!")
         }
 
-        let symbol_to_derive = self.grammar.get_initial_symbol();
-        let token_position: usize = 0;
-        let first_token = tokens_vector.get(token_position).unwrap();
+        // The solver is the last resource, it must not be asked before every path has failed.
+        let mut parse_symbol_result = self.inner_parse_from_initial_symbol(&tokens_vector, false);
 
-        let first_token_productions =
-            self.inner_get_token_productions(symbol_to_derive, &first_token.t_type);
-
-        let first_token_productions_iter = first_token_productions.into_iter();
-
-        let parse_symbol_result = self.inner_parse_from_tokens(
-            symbol_to_derive,
-            &tokens_vector,
-            token_position,
-            first_token_productions_iter,
-            true,
-        );
+        if self.syntax_error_solver.is_some()
+            && matches!(parse_symbol_result, ParseSymbolResult::Err(_))
+        {
+            parse_symbol_result = self.inner_parse_from_initial_symbol(&tokens_vector, true);
+        }
 
         Self::parse_symbol_result_to_parse_result(parse_symbol_result)
     }
@@ -183,6 +175,19 @@ impl<
             .unwrap_or(vec![])
     }
 
+    fn inner_parse_from_initial_symbol(
+        &self,
+        tokens: &Vec<Token<TLex, TSyntax>>,
+        is_single_path: bool,
+    ) -> ParseSymbolResult<TLex, TSyntax> {
+        self.inner_parse_from_tokens_production_non_terminal(
+            self.grammar.get_initial_symbol(),
+            tokens,
+            0,
+            is_single_path,
+        )
+    }
+
     fn inner_parse_from_tokens(
         &self,
         symbol_to_derive: &TSyntax,
-- 
2.43.0

