From 80e499536acd228dda7382974a4a3faad26aef57 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 1/6] fix: FOLLOW of a symbol that stands next to itself in an
 output

get_follow_symbols_process_production_non_terminal_symbol skipped an
occurrence followed by the same symbol, so FIRST of that symbol (and what
comes after it when it is nullable) was missing from its FOLLOW set.
---
 src/grammar/first_follow_symbols.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/grammar/first_follow_symbols.rs b/src/grammar/first_follow_symbols.rs
index f744611..a4dff6c 100644
--- a/src/grammar/first_follow_symbols.rs
+++ b/src/grammar/first_follow_symbols.rs
@@ -395,26 +395,24 @@ impl<T: Clone + Eq + Hash> FirstFollowSymbols<T> {
         let next_symbol_index: usize = production_output_index + 1;
         let next_symbol = production.output.get(next_symbol_index).unwrap();
 
-        if current_symbol.ne(next_symbol) {
-            let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
+        let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
 
-            if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-                first_indexes.clear();
-            }
+        if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+            first_indexes.clear();
+        }
 
-            first_indexes.push(next_symbol_index);
+        first_indexes.push(next_symbol_index);
 
-            let mut current_symbol_follow_symbols =
-                follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
+        let mut current_symbol_follow_symbols =
+            follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
 
-            follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
-                grammar,
-                first_symbols_map,
-                production,
-                first_indexes,
-                &mut current_symbol_follow_symbols,
-            );
-        }
+        follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
+            grammar,
+            first_symbols_map,
+            production,
+            first_indexes,
+            &mut current_symbol_follow_symbols,
+        );
 
         follow_symbols_updated
     }
-- 
2.43.0


From fdb52205a4a23a299391aef7bace68f921ebe84a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 2/6] fix: table entries of productions with a nullable first
 symbol

For A -> B alpha with B nullable the table used FIRST(B) and FOLLOW(B)
instead of FIRST(B alpha), and FOLLOW(A) when the output is nullable:
entries were missing or too many when B is also used elsewhere, so that
sentences of LL(1) grammars were rejected.
---
 .../recursive_descent_parser_transitions.rs   | 54 +++++++------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/src/parser/recursive_descent_parser_transitions.rs b/src/parser/recursive_descent_parser_transitions.rs
index 5da0a98..1275852 100644
--- a/src/parser/recursive_descent_parser_transitions.rs
+++ b/src/parser/recursive_descent_parser_transitions.rs
@@ -74,23 +74,9 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
      *
      * -----------------------------------------------------------------------------
      *
-     * Unfortunately we don't compute FIRST(α). Fortunately, $ is handled as an
-     * additional terminal symbol in the grammar. Keeping this in mind, there's a
-     * way to determine all the terminal symbols a in which M[A; a] = A → α
-     *
-     * -----------------------------------------------------------------------------
-     *
-     * Alternative algorithm:
-     *
-     * INPUT: Grammar G.
-     * OUTPUT: Parsing table M.
-     * METHOD: For each production A → Bα of the grammar, do the following:
-     *
-     *     1. For each terminal a in FIRST(B), add A → α to M[A; a].
-     *     2.1. If B is terminal and B is ε, then for each terminal b in FOLLOW(A),
-     *          add A → α to M[A; b]
-     *     2.2. If B is non terminal and ε is in FIRST(B), then for each terminal b
-     *          in FOLLOW(B), add A → α to M[A; b].
+     * $ is handled as an additional terminal symbol in the grammar. FIRST(α) is computed
+     * from the FIRST sets of the symbols of α: every symbol up to the first one which does
+     * not derive ε.
      */
     fn inner_from_get_production_first_symbols(
         grammar: &ContextFreeGrammar<T>,
@@ -109,8 +95,6 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
                     grammar,
                     production,
                     first_follow_symbols,
-                    symbol,
-                    symbol_first_symbols,
                 );
         } else {
             production_first_symbols =
@@ -126,29 +110,29 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
         grammar: &ContextFreeGrammar<T>,
         production: &ContextFreeGrammarProduction<T>,
         first_follow_symbols: &FirstFollowSymbols<T>,
-        symbol: &T,
-        symbol_first_symbols: &HashSet<T>,
     ) -> HashSet<T> {
         let mut production_first_symbols = HashSet::new();
 
-        symbol_first_symbols
-            .iter()
-            .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
-            .for_each(|symbol| {
-                production_first_symbols.insert(symbol.clone());
-            });
+        for symbol in &production.output {
+            let symbol_first_symbols = first_follow_symbols.get_first_symbols(symbol).unwrap();
 
-        let symbol_follow_symbols: &HashSet<T>;
+            symbol_first_symbols
+                .iter()
+                .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
+                .for_each(|symbol| {
+                    production_first_symbols.insert(symbol.clone());
+                });
 
-        if grammar.get_epsilon_symbol().eq(symbol) {
-            symbol_follow_symbols = first_follow_symbols
-                .get_follow_symbols(&production.input)
-                .unwrap();
-        } else {
-            symbol_follow_symbols = first_follow_symbols.get_follow_symbols(&symbol).unwrap();
+            if !symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+                return production_first_symbols;
+            }
         }
 
-        symbol_follow_symbols.iter().for_each(|symbol| {
+        let input_follow_symbols: &HashSet<T> = first_follow_symbols
+            .get_follow_symbols(&production.input)
+            .unwrap();
+
+        input_follow_symbols.iter().for_each(|symbol| {
             production_first_symbols.insert(symbol.clone());
         });
 
-- 
2.43.0


From cdfaaf6ae62ce6c352104e00dc78e85bd246b0f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 3/6] fix: input that ends before the grammar expects it to is
 a failure, not a panic

Deriving a non-terminal with no token left unwrapped a missing token: every
truncated input panicked. No production applies without a token.
---
 src/parser/recursive_descent_parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 91c49f5..4d84bc2 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -440,10 +440,12 @@ impl<
         token_position: usize,
         is_single_path: bool,
     ) -> ParseSymbolResult<TLex, TSyntax> {
-        let current_token_symbol = tokens.get(token_position).unwrap();
-
-        let token_productions =
-            self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type);
+        let token_productions = tokens
+            .get(token_position)
+            .map(|current_token_symbol| -> Vec<&Vec<TSyntax>> {
+                self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type)
+            })
+            .unwrap_or(vec![]);
 
         let token_productions_iter = token_productions.into_iter();
 
-- 
2.43.0


From f0902dbd33c0538ca956e334ccef997180c591d0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 4/6] fix: failure reports keep the symbols whose remaining
 alternatives failed

inner_parse_pop_states dropped a matched symbol once its other alternatives
had been tried in vain, so parsed, failed and pending symbols of a
FailedProduction no longer added up to the production.
---
 src/parser/recursive_descent_parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 4d84bc2..6d76d03 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -547,9 +547,9 @@ impl<
                 State::Fixed(fixed_state) => {
                     reversed_failed_symbols.push(State::Fixed(fixed_state));
                 }
-                State::Parsing(parsing_state) => {
+                State::Parsing(mut parsing_state) => {
                     if parsing_state.prod_iter_option.is_some() {
-                        let productions_iterator = parsing_state.prod_iter_option.unwrap();
+                        let productions_iterator = parsing_state.prod_iter_option.take().unwrap();
 
                         let state_option = self.inner_parse_from_tokens(
                             &parsing_state.node.token.t_type,
@@ -564,7 +564,9 @@ impl<
                                 states.push(State::Parsing(state));
                                 states_pop_success = true;
                             }
-                            _ => {}
+                            _ => {
+                                reversed_failed_symbols.push(State::Parsing(parsing_state));
+                            }
                         }
                     } else {
                         reversed_failed_symbols.push(State::Parsing(parsing_state));
-- 
2.43.0


From 0334f4a355c070fc27490c6353e9864992ddd99d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 5/6] fix: do not consult the error solver for alternatives
 retried while backtracking

The remaining alternatives of a matched symbol were derived as if they were
its only ones: the solver was asked about symbols that had matched, with the
failures of some of their productions only, and its repairs were thrown away.
---
 src/parser/recursive_descent_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 6d76d03..8f6c752 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -343,7 +343,7 @@ impl<
                     states.push(State::Parsing(parsing_state));
                 }
                 ParseSymbolResult::Err(failed_symbol) => {
-                    match self.inner_parse_pop_states(&mut states, tokens, is_single_path) {
+                    match self.inner_parse_pop_states(&mut states, tokens) {
                         Some(production_parsing_states) => {
                             return Self::inner_parse_from_tokens_production_build_failed_symbol(
                                 failed_symbol,
@@ -533,7 +533,6 @@ impl<
         &self,
         states: &mut Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>,
         tokens: &Vec<Token<TLex, TSyntax>>,
-        is_single_path: bool,
     ) -> Option<Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>> {
         let mut reversed_failed_symbols: Vec<
             State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>,
@@ -556,7 +555,7 @@ impl<
                             tokens,
                             parsing_state.initial_token_position,
                             productions_iterator,
-                            is_single_path,
+                            false,
                         );
 
                         match state_option {
-- 
2.43.0


From 267c589d6939fb9fdc957ef1ee8683c6fd090f58 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 6/6] fix: consult the error solver only when the input cannot
 be parsed

The solver was asked as soon as a symbol on a single path failed, although
backtracking could still parse the input: an accepted input became a repaired
one with a solver installed. The documentation of SyntaxErrorSolver says that
a fix attempt is the last resource.
---
 src/parser/recursive_descent_parser.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 8f6c752..21ffb18 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -134,16 +134,29 @@ impl<
         let first_token_productions =
             self.inner_get_token_productions(symbol_to_derive, &first_token.t_type);
 
-        let first_token_productions_iter = first_token_productions.into_iter();
+        let first_token_productions_iter = first_token_productions.clone().into_iter();
 
-        let parse_symbol_result = self.inner_parse_from_tokens(
+        let mut parse_symbol_result = self.inner_parse_from_tokens(
             symbol_to_derive,
             &tokens_vector,
             token_position,
             first_token_productions_iter,
-            true,
+            false,
         );
 
+        // A fix attempt is the last resource: nothing is fixed until the whole input fails
+        if self.syntax_error_solver.is_some()
+            && matches!(parse_symbol_result, ParseSymbolResult::Err(_))
+        {
+            parse_symbol_result = self.inner_parse_from_tokens(
+                symbol_to_derive,
+                &tokens_vector,
+                token_position,
+                first_token_productions.into_iter(),
+                true,
+            );
+        }
+
         Self::parse_symbol_result_to_parse_result(parse_symbol_result)
     }
 
-- 
2.43.0

