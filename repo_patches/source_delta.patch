From 0f29229a30250d3e0c51112ea7a8cba301868892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:36 +0000
Subject: [PATCH 01/22] fix: reject empty alternatives and empty groups in
 patterns

Patterns such as `()`, `|a`, `a||b` or `)` contain a sub expression without
items. They were parsed as an empty concatenation, which made the NFA compiler
panic. The grammar asks for at least one item, so report an error instead.
---
 pango-lexer/src/regex/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 05eb250..eee50c9 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -154,6 +154,13 @@ impl<'a> Parser<'a> {
             literals.push(self.sub_expression_item()?);
         }
 
+        if literals.is_empty() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::SubExpression,
+                pos: self.get_current_token_position(),
+            }]));
+        }
+
         Ok(literals)
     }
 
-- 
2.43.0


From 0dc1e7b33279056d5a38df3f9de36ca16db15bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:36 +0000
Subject: [PATCH 02/22] fix: reject patterns with an unmatched right
 parenthesis

Parsing stopped at the first `)` without a matching `(` and the rest of the
pattern was ignored: `a)b` was accepted and behaved like `a`.
---
 pango-lexer/src/regex/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index eee50c9..b75c0cb 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -101,6 +101,11 @@ impl<'a> Parser<'a> {
         }
 
         match self.expression() {
+            Ok(_) if self.tokens.peek().is_some() => Err(W(vec![ParseError {
+                // an expression only stops early at an unmatched right parenthesis
+                kind: ParseErrorKind::LeftParan,
+                pos: self.get_current_token_position(),
+            }])),
             Ok(expr) => Ok(Ast(expr)),
             Err(mut errs) => {
                 self.errors.append(&mut errs.0);
-- 
2.43.0


From a658b2cab40969ae9a021bca7df9e8fe63603d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 03/22] fix: let hexadecimal escapes take the documented number
 of digits

The digit limit of `\xHH`, `\uHHHH` and `\u{...}` was ignored. `\x41B` was
rejected instead of meaning `A` followed by `B`, `\u00411` became one other
character, `\u41` was accepted, and long digit strings wrapped around in 32
bits. Stop after the allowed digits and require all four of `\uHHHH`.
---
 pango-lexer/src/regex/tokenizer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index aab53fd..0d8b387 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -338,9 +338,13 @@ impl<'a> Tokenizer<'a> {
                         let hex1 = ch.to_digit(16)?;
 
                         // Note: The first character has already been consumed.
-                        let (_, character_code) =
+                        let (digit_amount, character_code) =
                             self.take_next_hexadecimals_and_convert_to_u32(4, Some(hex1))?;
 
+                        if digit_amount != 4 {
+                            return None;
+                        }
+
                         char::from_u32(character_code)
                     }
                 }
@@ -351,8 +355,8 @@ impl<'a> Tokenizer<'a> {
     }
 
     /// Returns the count of digits and converts them to [`u32`] including the
-    /// starting digit if present. Takes all hexadecimals it can take.
-    /// It only returns `Some` when the amount was the expected amount.
+    /// starting digit if present. Takes all hexadecimals it can take, but no
+    /// more than `max_digits`.
     fn take_next_hexadecimals_and_convert_to_u32(
         &mut self,
         max_digits: usize,
@@ -374,6 +378,7 @@ impl<'a> Tokenizer<'a> {
         self.iter
             .by_ref()
             .cautious_map_while(|(_, ch)| ch.to_digit(16))
+            .take(max_digits - digit_count as usize)
             .fold(Some((digit_count, start)), |acc, d| {
                 acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
             })
-- 
2.43.0


From d9555ec8c72eadbbfdba62a539c6628f42c0e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 04/22] fix: reject quantifier bounds that overflow in the last
 digit

`a{4294967296}` passed the overflow check of the multiplication, but the
addition of the last digit overflowed: a panic in debug builds, and a bound of
zero in release builds.
---
 pango-lexer/src/regex/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 0d8b387..cfa016e 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -389,7 +389,7 @@ impl<'a> Tokenizer<'a> {
     fn take_next_decimals_and_convert_to_u32(&mut self, start: Option<u32>) -> Option<u32> {
         (&mut self.iter)
             .cautious_map_while(|(_, ch)| ch.to_digit(10))
-            .fold(start.or(Some(0)), |acc, d| Some(acc?.checked_mul(10)? + d))
+            .fold(start.or(Some(0)), |acc, d| acc?.checked_mul(10)?.checked_add(d))
     }
 
     /// Returns the end position of the current token.
-- 
2.43.0


From b0ffa167027f7b5af75c54d599fc8d965ea9d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:57 +0000
Subject: [PATCH 05/22] fix: report the real end of a token cut off by the end
 of the pattern

An unfinished escape or quantifier at the end of a pattern got 1 as its end
position, so `abc\` was reported at the span (3, 1).
---
 pango-lexer/src/regex/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index cfa016e..3ab1c59 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -10,7 +10,6 @@ use proptest_derive::Arbitrary;
 /// Regex tokenenizer.
 pub(super) struct Tokenizer<'a> {
     /// The input the tokenizer is going to tokenize.
-    #[allow(unused)]
     pub(super) input: &'a str,
     /// Iterator over the characters in the input (as defined in the rust `char`
     /// type), along with their position in the input.
@@ -399,7 +398,8 @@ impl<'a> Tokenizer<'a> {
     fn get_token_end_cursor_pos(&mut self) -> usize {
         match self.iter.current() {
             Some((cursor_pos, _)) => cursor_pos + 1,
-            None => 1,
+            // the token was cut off by the end of the input
+            None => self.input.chars().count(),
         }
     }
 }
-- 
2.43.0


From 61a698bcf4706ff844507dd698424be720d63fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:19 +0000
Subject: [PATCH 06/22] fix: count visits from the very start of a simulation

The start configuration was the static epsilon closure of the start state with
all visit counters at zero. Iterations of a quantified group that begin before
the first character were not counted: `(a?b){2}` rejected `abab`, and
`(a*){2}b` rejected `b`. Use the closure that keeps track of the counters.
---
 pango-lexer/src/fsm/nfa/model.rs | 46 +-------------------------------
 pango-lexer/src/fsm/nfa/sim.rs   | 14 +++++-----
 2 files changed, 9 insertions(+), 51 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f0bf32b..6e37861 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -1,6 +1,6 @@
 use super::StateId;
 use crate::regex::{ast, tokenizer::QuantifierKind};
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 // TODO: Clean up expects and panics to be `Option` and `Result` types.
 
@@ -76,50 +76,6 @@ impl Nfa {
     pub(super) fn get_final_states(&self) -> impl Iterator<Item = &State> + '_ {
         self.states.iter().filter(|s| s.fin)
     }
-
-    /// Returns an iterator over references to all states in the static epsilon
-    /// closure of the given state.
-    ///
-    /// This implementation of the NFA uses quantified transitions which can
-    /// only be taken when the state has been visited 'x' amount of times.
-    /// This is useful to prevent the exponential growth of the NFA when
-    /// compiling complex regex quantifiers. However, this means that state
-    /// counting has to be done at 'run-time' of the NFA. Information which is
-    /// not known to the [`NfaModel`](self::Nfa). Instaid a state is always
-    /// assumed to be visited 0 times, when trying quantified transitions.
-    pub(super) fn eps_closure(&self, state_id: StateId) -> impl Iterator<Item = StateId> {
-        let mut not_visited = VecDeque::from([state_id]);
-        let mut result = BTreeSet::from([state_id]);
-
-        while let Some(state_id) = not_visited.pop_front() {
-            let State { transitions, .. } = self.get_state(state_id);
-
-            let new_state_ids = transitions
-                .iter()
-                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
-                    match input {
-                        Input::Literal(_) => None,
-                        Input::Eps => Some(Box::new(states.iter())),
-                        Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(0) {
-                                Some(Box::new(states.iter()))
-                            } else {
-                                None
-                            }
-                        }
-                    }
-                })
-                .flatten();
-
-            for state_id in new_state_ids {
-                if result.insert(*state_id) {
-                    not_visited.push_back(*state_id)
-                }
-            }
-        }
-
-        result.into_iter()
-    }
 }
 
 impl Input {
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index dd08984..748bfba 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -58,12 +58,14 @@ impl Run {
 impl<'a> NfaSimulator<'a> {
     /// Creates a new [`NfaSimulator`].
     fn new(nfa: Cow<'a, Nfa>) -> Self {
-        let runs = nfa
-            .eps_closure(nfa.start_state)
-            .map(Run::new)
-            .collect::<Vec<_>>();
-
-        Self { nfa, runs }
+        let start = Run::new(nfa.start_state);
+
+        let mut sim = Self {
+            nfa,
+            runs: Vec::new(),
+        };
+        sim.runs = sim.eps_closure(start).collect();
+        sim
     }
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
-- 
2.43.0


From 86eb9739ecd8770ce090030cf93806ff477d2284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:54 +0000
Subject: [PATCH 07/22] fix: keep the number of simulation runs bounded by the
 pattern

Visit counters grew without bound. A quantified group that can match the empty
string, for example `(a*)*` or `(a?)+`, therefore had an infinite epsilon
closure and the lexer never returned. Equal runs reached on different ways
were also kept several times, which doubled the work with every character for
overlapping alternatives such as `(a|[ab])*`.

Count only quantified states, saturate the counters where the quantifier stops
telling counts apart, and drop duplicate runs.
---
 pango-lexer/src/fsm/nfa/model.rs   | 13 ++++++++++++
 pango-lexer/src/fsm/nfa/sim.rs     | 34 ++++++++++++++++++++----------
 pango-lexer/src/regex/tokenizer.rs | 14 ++++++++++++
 3 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index 6e37861..67f0282 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -105,6 +105,19 @@ impl State {
     fn with_id(id: StateId, fin: bool) -> Self {
         Self::new(id, fin, Transitions::new())
     }
+
+    /// Returns the highest visit count the quantified transitions of the state
+    /// can tell apart from higher ones.
+    pub(super) fn get_count_limit(&self) -> usize {
+        self.transitions
+            .keys()
+            .filter_map(|input| match input {
+                Input::Quantified(quantifier) => Some(quantifier.get_count_limit()),
+                Input::Literal(_) | Input::Eps => None,
+            })
+            .max()
+            .unwrap_or(0)
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index 748bfba..00757bb 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -41,13 +41,19 @@ impl Run {
 
     /// Updates the [`Run`] to the new state and updates the needed state
     /// counters.
-    fn take_transition(mut self, new_state_id: StateId, quantified: bool) -> Self {
-        let count = self.state_counters.entry(self.state_id).or_insert(0);
-        if quantified {
-            // Reset the state count if quantified transition is used
-            *count = 0;
-        } else {
-            *count += 1;
+    ///
+    /// Only states with a quantified transition are counted, and only as far as
+    /// the quantifier can tell counts apart. This keeps the number of different
+    /// runs finite.
+    fn take_transition(mut self, nfa: &Nfa, new_state_id: StateId, quantified: bool) -> Self {
+        // Reset the state count if quantified transition is used
+        let count = self.state_counters.remove(&self.state_id).unwrap_or(0);
+        if !quantified {
+            let limit = nfa.get_state(self.state_id).get_count_limit();
+            let count = (count + 1).min(limit);
+            if count > 0 {
+                self.state_counters.insert(self.state_id, count);
+            }
         }
         self.state_id = new_state_id;
 
@@ -103,7 +109,10 @@ impl<'a> NfaSimulator<'a> {
 
             let new_runs = transitions_taken
                 .into_iter()
-                .map(|(new_state, quantified)| run.clone().take_transition(*new_state, quantified));
+                .map(|(new_state, quantified)| {
+                    run.clone()
+                        .take_transition(&self.nfa, *new_state, quantified)
+                });
 
             for new_run in new_runs {
                 if result.insert(new_run.clone()) {
@@ -136,7 +145,7 @@ impl Simulate for NfaSimulator<'_> {
     }
 
     fn feed(&mut self, input: char) -> bool {
-        let mut updated_runs = Vec::new();
+        let mut updated_runs = HashSet::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
             let State { transitions, .. } = self.nfa.get_state(*state_id);
@@ -163,13 +172,16 @@ impl Simulate for NfaSimulator<'_> {
 
             let new_runs = new_state_ids
                 .into_iter()
-                .map(|new_state_id| run.clone().take_transition(*new_state_id, false))
+                .map(|new_state_id| {
+                    run.clone()
+                        .take_transition(&self.nfa, *new_state_id, false)
+                })
                 .flat_map(|new_run| self.eps_closure(new_run));
 
             updated_runs.extend(new_runs);
         }
 
-        self.runs = updated_runs;
+        self.runs = updated_runs.into_iter().collect();
 
         #[cfg(debug_assertions)]
         {
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 3ab1c59..df86b51 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -418,6 +418,20 @@ impl QuantifierKind {
             }
         }
     }
+
+    /// Returns the count from which on [`is_satisfied`](Self::is_satisfied)
+    /// does not change anymore.
+    pub(crate) fn get_count_limit(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::QuestionMark => 2,
+            QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,
+            QuantifierKind::Range(
+                QuantifierRangeKind::Max(max) | QuantifierRangeKind::Range(_, max),
+            ) => *max as usize + 1,
+        }
+    }
 }
 
 impl ClassKind {
-- 
2.43.0


From 8535012f18c9399f3e3572dd442b3b7352df8fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:54 +0000
Subject: [PATCH 08/22] fix: return the longest token when look-ahead hits the
 end of input

With the tokens `a` and `abc`, the input `ab` gave no token at all: the
simulation was not accepting when the input ended, and the token accepted
before was thrown away.
---
 pango-lexer/src/lexer/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 110072f..ddf9a24 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -110,13 +110,10 @@ where
             }
         }
 
-        if sim.is_accepting() {
-            token_kind.map(|token_kind| {
-                Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-            })
-        } else {
-            None
-        }
+        // The end of the input also ends the longest token, even if more input could
+        // have made it longer.
+        token_kind
+            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
     }
 }
 
-- 
2.43.0


From 88d2cdbfb2a835535b15505b82361ab352cb1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:54 +0000
Subject: [PATCH 09/22] fix: do not lose characters when falling back more than
 once

When a token was completed while characters of an earlier look-ahead were
still waiting to be read again, those characters were dropped. With the tokens
`abcd`, `a`, `b` and `c`, characters of the input `abce` vanished.
---
 pango-lexer/src/lexer/input.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 668df14..fc30771 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,7 +74,12 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
+            .into_iter()
+            // not all characters of the previous suffix have to be read again yet
+            .chain(self.prev_characters_iter.by_ref())
+            .collect::<Vec<_>>()
+            .into_iter();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
-- 
2.43.0


From c20a3f48448b61d6a174e15110410daaf5e97380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:31 +0000
Subject: [PATCH 10/22] fix: keep reporting the end of the token stream

A failing call of the lexer left the characters it had read in the suffix of
the current token. With the token `a` and the input `xa`, the first call
returned nothing and the second one returned the token `xa`.
---
 pango-lexer/src/lexer/input.rs | 17 +++++++++++------
 pango-lexer/src/lexer/mod.rs   | 17 ++++++++++++-----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index fc30771..c40c25d 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,12 +74,7 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
-            .into_iter()
-            // not all characters of the previous suffix have to be read again yet
-            .chain(self.prev_characters_iter.by_ref())
-            .collect::<Vec<_>>()
-            .into_iter();
+        self.restore_suffix();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
@@ -91,6 +86,16 @@ impl<'a> InputIter<'a> {
         std::mem::replace(&mut self.current_token, new_token)
     }
 
+    /// Moves the not accepted part of the input back, so it is read again.
+    pub(super) fn restore_suffix(&mut self) {
+        self.prev_characters_iter = std::mem::take(&mut self.token_suffix)
+            .into_iter()
+            // not all characters of the previous suffix have to be read again yet
+            .chain(self.prev_characters_iter.by_ref())
+            .collect::<Vec<_>>()
+            .into_iter();
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index ddf9a24..85d01a6 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -73,9 +73,7 @@ where
             if !sim.can_feed(ch) {
                 // the current token is the longest token we can 'munch'
 
-                return token_kind.map(|token_kind| {
-                    Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-                });
+                break;
             }
 
             if sim.feed(ch) {
@@ -112,8 +110,17 @@ where
 
         // The end of the input also ends the longest token, even if more input could
         // have made it longer.
-        token_kind
-            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
+        match token_kind {
+            Some(token_kind) => Some(Token::from_input_iter_token(
+                self.iter.consume_token(),
+                token_kind,
+            )),
+            None => {
+                // nothing was accepted, so nothing may be consumed either
+                self.iter.restore_suffix();
+                None
+            }
+        }
     }
 }
 
-- 
2.43.0


From 21d09008d71770f1d5fec76bc57be5d02d34397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:31 +0000
Subject: [PATCH 11/22] fix: create one CFSM state per item set

A new item set was only compared with the finished states, not with the
pending ones and the one being processed. The same item set therefore got
several states, and their number could grow exponentially.
---
 pango-parser/src/cfsm/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pango-parser/src/cfsm/mod.rs b/pango-parser/src/cfsm/mod.rs
index 66bd8da..bdbc925 100644
--- a/pango-parser/src/cfsm/mod.rs
+++ b/pango-parser/src/cfsm/mod.rs
@@ -76,12 +76,12 @@ where
             // try all symbols with a bullet reading them
 
             let State {
-                ref item_set,
+                ref id,
+                item_set: ref current_item_set,
                 ref mut transitions,
-                ..
             } = state;
 
-            for (symbol, item_set) in item_set.iter_by_cursor_symbol() {
+            for (symbol, item_set) in current_item_set.iter_by_cursor_symbol() {
                 // advance the items which read the same symbol
 
                 let new_item_set = item_set
@@ -102,9 +102,11 @@ where
                     match builder
                         .get_states_mut()
                         .iter()
+                        .chain(pending_states.iter())
                         .find(|s| s.has_item_set(&item_set))
                     {
                         Some(State { id, .. }) => *id,
+                        None if *current_item_set == item_set => *id,
                         None => {
                             let state = State::new(state_id_generator.next(), item_set);
                             let state_id = state.id;
-- 
2.43.0


From d7a94bbfd2a6beb786b72e66d049addd58722e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:31 +0000
Subject: [PATCH 12/22] fix: do not refuse grammars over identical table
 entries

Two items that ask for the same action on the same terminal are not a
conflict. `S -> a b | a c` was refused, because both rules shift `a`.
---
 pango-parser/src/parser/table.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 0b14ae4..15899cf 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -135,6 +135,7 @@ where
 
 impl<V, T> ParseTable<V, T>
 where
+    V: Copy + Eq,
     T: TerminalEq + TerminalHash,
 {
     fn insert_action(
@@ -150,16 +151,12 @@ where
         let state = table
             .get_mut(state)
             .expect("state should exist as the table has just been resized");
-        let mut occupied = true;
-        let _entry = state.entry(terminal).or_insert_with(|| {
-            occupied = false;
-            action
-        });
+        let entry = state.entry(terminal).or_insert(action);
 
         // TODO: Return type of conflict
-        match occupied {
-            true => Err(()),
-            false => Ok(()),
+        match *entry == action {
+            true => Ok(()),
+            false => Err(()),
         }
     }
 }
-- 
2.43.0


From f8c3aae7a56f2d687f6d1c6d926f046fcfa160d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:31 +0000
Subject: [PATCH 13/22] fix: do not pop stack entries for epsilon symbols

Reducing by a rule popped one entry for every symbol of the body, including
epsilon symbols, for which nothing was pushed. Parsing any grammar with an
empty rule panicked or built a wrong tree.
---
 pango-parser/src/parser/table.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 15899cf..40dd2fa 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -80,6 +80,14 @@ where
                     }
                     None => {
                         // body of the form `S -> w •`
+
+                        // epsilon symbols are never pushed on the stack
+                        let amount = body
+                            .get_body()
+                            .iter()
+                            .filter(|s| !matches!(s, Symbol::Epsilon))
+                            .count();
+
                         let Some(follow) = follow_set.get(&head) else {
                             continue;
                         };
@@ -99,7 +107,7 @@ where
                                 t,
                                 ActionKind::Reduce {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
@@ -113,7 +121,7 @@ where
                                 Terminal::Eof,
                                 ActionKind::Accept {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
-- 
2.43.0


From 65fbe3e7fb76a357c2df9c73da704ec67d935741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:31 +0000
Subject: [PATCH 14/22] fix: give every state a row in the parse tables

The tables only grew up to the last state with an entry. Parsing panicked when
it reached a state behind that one.
---
 pango-parser/src/parser/table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 40dd2fa..932e333 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -133,6 +133,11 @@ where
             }
         }
 
+        // states at the end do not need to have any entries
+        let state_amount = cfsm.iter().count();
+        action.resize_with(state_amount, Default::default);
+        goto.resize_with(state_amount, Default::default);
+
         Ok(Self {
             action,
             goto,
-- 
2.43.0


From 8094754586892c170783def7afeef11be1e36599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:46 +0000
Subject: [PATCH 15/22] fix: reduce variables that are followed by the end of
 the input

The end of the input was never part of a FOLLOW set, so only the start
variable could be reduced there. With `S -> A` and `A -> a` the sentence `a`
was rejected.
---
 pango-parser/src/grammar.rs      | 35 ++++++++++++++++++++++++++++++++
 pango-parser/src/parser/table.rs | 17 +++++++++++-----
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 5f877a2..2eac28e 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -375,6 +375,41 @@ where
     }
 }
 
+impl<V, T> Grammar<V, T>
+where
+    V: Copy + Eq + Hash,
+    T: Eq + Hash,
+{
+    /// Returns the set of `Variables` that can be followed by the end of the
+    /// input.
+    pub(super) fn end_follow_set(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending_heads = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending_heads.pop_front() {
+            for body in self.get_rule_bodies(head).into_iter().flatten() {
+                for symbol in body.iter().rev() {
+                    match symbol {
+                        Symbol::Epsilon => continue,
+                        Symbol::Terminal(_) => break,
+                        Symbol::Variable(v) => {
+                            if result.insert(*v) {
+                                pending_heads.push_back(*v);
+                            }
+
+                            if !self.first(*v).contains(&Symbol::Epsilon) {
+                                break;
+                            }
+                        }
+                    }
+                }
+            }
+        }
+
+        result
+    }
+}
+
 impl<V, T> Grammar<V, T>
 where
     V: Copy + Eq + Hash,
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 932e333..e0cffd8 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -48,6 +48,7 @@ where
         let grammar = cfsm.get_grammar();
 
         let follow_set = grammar.follow_set();
+        let end_follow_set = grammar.end_follow_set();
 
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
 
@@ -88,11 +89,7 @@ where
                             .filter(|s| !matches!(s, Symbol::Epsilon))
                             .count();
 
-                        let Some(follow) = follow_set.get(&head) else {
-                            continue;
-                        };
-
-                        for s in follow.iter() {
+                        for s in follow_set.get(&head).into_iter().flatten() {
                             let t = match s {
                                 Symbol::Terminal(t) => Terminal::T(t.into()),
                                 Symbol::Variable(_) => {
@@ -124,6 +121,16 @@ where
                                     amount,
                                 },
                             )?;
+                        } else if end_follow_set.contains(&head) {
+                            Self::insert_action(
+                                &mut action,
+                                *state_id,
+                                Terminal::Eof,
+                                ActionKind::Reduce {
+                                    variable: head,
+                                    amount,
+                                },
+                            )?;
                         }
                     }
                     Some(Symbol::Epsilon) => {
-- 
2.43.0


From a5c744293414759191d5a1e637dd191e2ae00a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:05 +0000
Subject: [PATCH 16/22] fix: only accept a start variable that spans the whole
 input

A completed rule of the start variable was accepted at the end of the input
even when it was nested inside another rule. With `S -> ( S ) | x` the input
`(x` was accepted, with a tree that did not contain the parenthesis.
---
 pango-parser/src/parser/slr.rs | 38 ++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c828220..3526b9c 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -118,7 +118,26 @@ where
                 )),
                 state: *dest_state,
             },
-            ActionKind::Reduce { variable, amount } => {
+            // Only accept if nothing but the bottom remains on the stack, a nested start
+            // variable is reduced like every other variable.
+            ActionKind::Accept { variable, amount } if stack.len() == amount + 1 => {
+                let children = stack
+                    .drain((stack.len() - amount)..)
+                    .map(|parse_node| parse_node.node)
+                    .rev()
+                    .collect();
+
+                accept = true;
+                ParseNode {
+                    node: Node {
+                        symbol: Symbol::Variable(*variable),
+                        children,
+                    },
+                    // State does not matter here as the action is to accept
+                    state: StateId::default(),
+                }
+            }
+            ActionKind::Reduce { variable, amount } | ActionKind::Accept { variable, amount } => {
                 let children = stack
                     .drain((stack.len() - amount)..)
                     .map(|parse_node| parse_node.node)
@@ -148,23 +167,6 @@ where
                     state: *new_state,
                 }
             }
-            ActionKind::Accept { variable, amount } => {
-                let children = stack
-                    .drain((stack.len() - amount)..)
-                    .map(|parse_node| parse_node.node)
-                    .rev()
-                    .collect();
-
-                accept = true;
-                ParseNode {
-                    node: Node {
-                        symbol: Symbol::Variable(*variable),
-                        children,
-                    },
-                    // State does not matter here as the action is to accept
-                    state: StateId::default(),
-                }
-            }
         };
 
         Ok((parse_node, accept))
-- 
2.43.0


From 98108b7eb2185de16fa11d1c2fc451ce911e5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:05 +0000
Subject: [PATCH 17/22] fix: refuse grammars with a conflict between accepting
 and reducing

The end of the input is accepted after a complete start variable. If a rule
can be reduced there as well, the grammar is not SLR. Such grammars, for
example `S -> S | a`, were not refused.
---
 pango-parser/src/parser/table.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index e0cffd8..95feed7 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -145,6 +145,15 @@ where
         action.resize_with(state_amount, Default::default);
         goto.resize_with(state_amount, Default::default);
 
+        // In the state behind a complete start variable the end of the input is accepted,
+        // so any other action on it is a conflict.
+        let start_state = StateId::default();
+        if let Some(state) = goto[start_state].get(&grammar.get_start_variable()) {
+            if action[*state].contains_key(&Terminal::Eof) {
+                return Err(());
+            }
+        }
+
         Ok(Self {
             action,
             goto,
-- 
2.43.0


From 1ac14bd6238abbcbf55d44334752e6fee73bcf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:23 +0000
Subject: [PATCH 18/22] fix: do not parse successfully when the lexer stopped
 early

The lexer returns nothing both at the end of the input and at a position where
no token matches. The parser took both for the end of the input, so `3+4$` was
parsed as `3+4`. Let the lexer tell whether it reached the end.
---
 pango-lexer/src/lexer/input.rs | 5 +++++
 pango-lexer/src/lexer/mod.rs   | 8 ++++++++
 pango-parser/src/parser/slr.rs | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index c40c25d..138a2d0 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -96,6 +96,11 @@ impl<'a> InputIter<'a> {
             .into_iter();
     }
 
+    /// Whether there are no characters left to read.
+    pub(super) fn is_at_end(&self) -> bool {
+        self.prev_characters_iter.len() == 0 && self.iter.clone().next().is_none()
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 85d01a6..1714e07 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -124,6 +124,14 @@ where
     }
 }
 
+impl<TokenKind, Fsm: Simulatable> Lexer<'_, TokenKind, Fsm> {
+    /// Whether the whole input has been turned into tokens. If this is not the
+    /// case after the last token, no token matches the rest of the input.
+    pub fn is_at_end(&self) -> bool {
+        self.iter.is_at_end()
+    }
+}
+
 impl<TokenKind> Lexer<'_, TokenKind, Nfa> {
     /// Creates a `LexerGenerator`.
     pub fn builder() -> LexerGenerator<TokenKind> {
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index 3526b9c..48d9e93 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -70,6 +70,11 @@ where
             stack.push(parse_node);
         }
 
+        if !input.is_at_end() {
+            // the lexer could not continue
+            return Err(());
+        }
+
         // eof
         next_token = None;
         while let Ok((parse_node, accept)) =
-- 
2.43.0


From 6cf8959483b4f65428ccdf7d21bbd86e664cdb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:15 +0000
Subject: [PATCH 19/22] fix: drop lexer runs that have exceeded the maximum of
 their quantifier

A run that visited a quantified state more often than its maximum allows can
never leave that state again. Keeping such runs made their number grow
exponentially with the nesting depth of optional groups.
---
 pango-lexer/src/fsm/nfa/model.rs | 11 +++++++++++
 pango-lexer/src/fsm/nfa/sim.rs   | 23 ++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index 67f0282..792976b 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -118,6 +118,17 @@ impl State {
             .max()
             .unwrap_or(0)
     }
+
+    /// Whether a visit count is too high for the quantified transition of the
+    /// state, now and after any further visits.
+    pub(super) fn is_count_exceeded(&self, count: usize) -> bool {
+        self.transitions.keys().any(|input| match input {
+            Input::Quantified(quantifier) => {
+                count >= quantifier.get_count_limit() && !quantifier.is_satisfied(count)
+            }
+            Input::Literal(_) | Input::Eps => false,
+        })
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index 00757bb..e3b0e76 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -44,20 +44,29 @@ impl Run {
     ///
     /// Only states with a quantified transition are counted, and only as far as
     /// the quantifier can tell counts apart. This keeps the number of different
-    /// runs finite.
-    fn take_transition(mut self, nfa: &Nfa, new_state_id: StateId, quantified: bool) -> Self {
+    /// runs finite. `None` is returned if the run can never leave the quantified
+    /// state anymore, because the state has been visited too often.
+    fn take_transition(
+        mut self,
+        nfa: &Nfa,
+        new_state_id: StateId,
+        quantified: bool,
+    ) -> Option<Self> {
         // Reset the state count if quantified transition is used
         let count = self.state_counters.remove(&self.state_id).unwrap_or(0);
         if !quantified {
-            let limit = nfa.get_state(self.state_id).get_count_limit();
-            let count = (count + 1).min(limit);
+            let state = nfa.get_state(self.state_id);
+            let count = (count + 1).min(state.get_count_limit());
+            if state.is_count_exceeded(count) {
+                return None;
+            }
             if count > 0 {
                 self.state_counters.insert(self.state_id, count);
             }
         }
         self.state_id = new_state_id;
 
-        self
+        Some(self)
     }
 }
 
@@ -109,7 +118,7 @@ impl<'a> NfaSimulator<'a> {
 
             let new_runs = transitions_taken
                 .into_iter()
-                .map(|(new_state, quantified)| {
+                .filter_map(|(new_state, quantified)| {
                     run.clone()
                         .take_transition(&self.nfa, *new_state, quantified)
                 });
@@ -172,7 +181,7 @@ impl Simulate for NfaSimulator<'_> {
 
             let new_runs = new_state_ids
                 .into_iter()
-                .map(|new_state_id| {
+                .filter_map(|new_state_id| {
                     run.clone()
                         .take_transition(&self.nfa, *new_state_id, false)
                 })
-- 
2.43.0


From 5c5687cfcaf2e235e033ada5a386e380befe3300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:03 +0000
Subject: [PATCH 20/22] fix: store the rest of a body once as dependency when
 computing first sets

The same rest of a body was stored again each time it was visited, and every
stored copy was visited again when the first set it depends on changed. The
number of copies grew exponentially with the number of variables in a row that
can be empty.
---
 pango-parser/src/grammar.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 2eac28e..75d848b 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -127,8 +127,12 @@ where
         use body_iter::BodyIter;
 
         type PendingQueue<'a, V, T> = VecDeque<(Option<V>, Vec<Box<dyn BodyIter<'a, V, T>>>)>;
-        type DependencyMap<'a, V, T> =
-            HashMap<V, HashMap<Option<V>, Vec<Box<dyn BodyIter<'a, V, T>>>>>;
+        // The rest of a body is identified by its first symbol, so that it is only
+        // stored once.
+        type DependencyMap<'a, V, T> = HashMap<
+            V,
+            HashMap<Option<V>, HashMap<*const Symbol<V, T>, Box<dyn BodyIter<'a, V, T>>>>,
+        >;
 
         let mut result = HashSet::new();
         let mut first = HashMap::new();
@@ -174,7 +178,11 @@ where
 
             if changed {
                 if let Some(dependencies) = variable.and_then(|v| dependencies.remove(&v)) {
-                    pending_queue.extend(dependencies);
+                    pending_queue.extend(
+                        dependencies
+                            .into_iter()
+                            .map(|(v, bodies)| (v, bodies.into_values().collect())),
+                    );
                 }
             }
         }
@@ -209,8 +217,8 @@ where
                                 .entry(*v)
                                 .or_insert_with(HashMap::new)
                                 .entry(variable)
-                                .or_insert_with(Vec::new)
-                                .push(last_body.clone());
+                                .or_insert_with(HashMap::new)
+                                .insert(symbol as *const _, last_body.clone());
 
                             if !visited_variables.contains(v) {
                                 // make the bodies of the variable pending
-- 
2.43.0


From 22c63530c6e8a8f4f41392747205d687125005e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:20 +0000
Subject: [PATCH 21/22] fix: drop deep syntax trees without recursion

Dropping a syntax tree recursed once per level of the tree. For a left
recursive list of many tokens that is followed by an unexpected token the
stack overflowed inside parse, for a sentence when the tree was dropped.
---
 pango-parser/src/cst.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pango-parser/src/cst.rs b/pango-parser/src/cst.rs
index 4c7b295..99c89d5 100644
--- a/pango-parser/src/cst.rs
+++ b/pango-parser/src/cst.rs
@@ -21,3 +21,14 @@ impl<V, T> Node<V, T> {
         }
     }
 }
+
+impl<V, T> Drop for Node<V, T> {
+    /// Drops the descendants one by one, as a tree can be too deep for a
+    /// recursive drop.
+    fn drop(&mut self) {
+        let mut nodes = std::mem::take(&mut self.children);
+        while let Some(mut node) = nodes.pop() {
+            nodes.append(&mut node.children);
+        }
+    }
+}
-- 
2.43.0


From 7aeb6cf1ab6630c3739d800e99ad32cd850105a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:48:35 +0000
Subject: [PATCH 22/22] fix: escape the labels of the dot rendering

The debug rendering of a symbol may contain quotes and backslashes, as it
does for strings and characters. A quote ended the label early and a
backslash started an escape, so the output was no valid dot file or showed
other items.
---
 pango-parser/src/cfsm/dot.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pango-parser/src/cfsm/dot.rs b/pango-parser/src/cfsm/dot.rs
index daaf3f6..a2abe31 100644
--- a/pango-parser/src/cfsm/dot.rs
+++ b/pango-parser/src/cfsm/dot.rs
@@ -34,7 +34,7 @@ where
         self.states.iter().map(|State { id, item_set, .. }| {
             let label = item_set
                 .iter()
-                .map(|(head, item_body)| format!("{:?} ➞ {}", head, item_body))
+                .map(|(head, item_body)| escape(&format!("{:?} ➞ {}", head, item_body)))
                 .collect::<Vec<_>>()
                 .join(r"\n");
 
@@ -54,11 +54,11 @@ where
                         "{} -> {} [label = \"{}\"]",
                         *id,
                         state,
-                        match symbol {
+                        escape(&match symbol {
                             Symbol::Terminal(t) => format!("{:?}", t),
                             Symbol::Variable(v) => format!("{:?}", v),
                             eps @ Symbol::Epsilon => format!("{:?}", eps),
-                        }
+                        })
                     )
                 })
             },
@@ -66,6 +66,11 @@ where
     }
 }
 
+/// Escapes the characters that have a meaning of their own inside a dot label.
+fn escape(label: &str) -> String {
+    label.replace('\\', r"\\").replace('"', r#"\""#)
+}
+
 impl<V, T> Display for ItemBody<V, T>
 where
     V: Debug,
-- 
2.43.0

