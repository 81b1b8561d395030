From 6daf50d009cd27531a2a0b9ed5331e94d6709e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 01/31] fix: only accept regex matches at the start of the text

The \A prefix only anchors the first alternative of a pattern with top level
alternation so text further along could be matched (and the text before it
silently became part of the lexeme).
---
 lexan/src/matcher.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..98d2845 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -1,6 +1,6 @@
 // Copyright (c) 2026 Peter Williams <pwil3058@bigpond.net.au> <pwil3058@gmail.com>.
 
-use regex::Regex;
+use regex::{Match, Regex};
 use std::cmp::Ordering;
 use std::fmt::Display;
 use std::{cmp::Eq, collections::HashMap, fmt::Debug};
@@ -121,6 +121,14 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
+/// Returns the match of `regex` at the start of `text` (if there is one).
+///
+/// NB: the `\A` with which we prefix patterns only anchors the first alternative when the
+/// pattern has top level alternation and we have to discard any match that's not at the start.
+fn match_at_start<'t>(regex: &Regex, text: &'t str) -> Option<Match<'t>> {
+    regex.find(text).filter(|m| m.start() == 0)
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -145,7 +153,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         let mut matches = vec![];
         let mut largest_end = 0;
         for (tag, regex) in self.lexemes.iter() {
-            if let Some(m) = regex.find(text) {
+            if let Some(m) = match_at_start(regex, text) {
                 match m.end().cmp(&largest_end) {
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
@@ -162,7 +170,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if match_at_start(regex, text).is_some() {
                 return true;
             }
         }
@@ -194,7 +202,7 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
+                if let Some(m) = match_at_start(regex, &text[index..]) {
                     index += m.end();
                     continue 'outer;
                 }
@@ -206,7 +214,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if match_at_start(regex, text).is_some() {
                 return true;
             }
         }
-- 
2.43.0


From ca74c2167e300d61a1650d28c2e1a0ed1ee3f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 02/31] fix: ignore empty regex matches

A token pattern that matches the empty string yielded an endless sequence of
empty tokens and a skip pattern that does hung the analyser.
---
 lexan/src/matcher.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index 98d2845..c539b96 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,12 +121,13 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
-/// Returns the match of `regex` at the start of `text` (if there is one).
+/// Returns the match of `regex` at the start of `text` (if there is one and it's not empty).
 ///
 /// NB: the `\A` with which we prefix patterns only anchors the first alternative when the
-/// pattern has top level alternation and we have to discard any match that's not at the start.
+/// pattern has top level alternation and we have to discard any match that's not at the start.  Empty matches are discarded because
+/// accepting them would stop the analysis from progressing.
 fn match_at_start<'t>(regex: &Regex, text: &'t str) -> Option<Match<'t>> {
-    regex.find(text).filter(|m| m.start() == 0)
+    regex.find(text).filter(|m| m.start() == 0 && !m.is_empty())
 }
 
 #[derive(Debug, Default)]
-- 
2.43.0


From e2aaee47ebcbfcd892fd777056ebd76000d59b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 03/31] fix: only look for the next valid content at character
 boundaries

Slicing the text at other positions panics when it contains multi byte
characters that don't match anything.
---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From 036eb525ff754be43bf36cdaa0207b6b14bffddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 04/31] fix: count every line in text with mixed line endings

Looking for CRLF before LF caused any LF terminated lines preceding a CRLF
to be missed.
---
 lexan/src/analyzer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..7e80ac0 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,7 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From 9bcd8d25c00487744b3cbaef271e9903282ce741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:28 +0000
Subject: [PATCH 05/31] fix: present the end marker when there are no tokens in
 the text

An empty (or completely skippable) text was reported as having been advanced
beyond its end which made it impossible to parse one for a grammar that allows
it.
---
 lexan/src/analyzer.rs | 13 +++++++++++++
 lexan/src/lib.rs      |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 7e80ac0..36656b1 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -274,6 +274,19 @@ where
         stream
     }
 
+    /// Returns a stream whose front is the end marker if there are no tokens in `text`.
+    pub(crate) fn for_text(lexicon: &Arc<Lexicon<T>>, text: &str, label: &str) -> Self {
+        let mut stream = Self::new(lexicon, text, label);
+        if stream.is_empty() {
+            stream.front = Ok(Token {
+                tag: lexicon.end_marker(),
+                lexeme: String::new(),
+                location: BasicTokenStream::new(lexicon, text, label).location(),
+            });
+        }
+        stream
+    }
+
     pub fn is_empty(&self) -> bool {
         self.token_stream_stack.len() == 0
     }
diff --git a/lexan/src/lib.rs b/lexan/src/lib.rs
index 65485be..9791528 100644
--- a/lexan/src/lib.rs
+++ b/lexan/src/lib.rs
@@ -39,7 +39,7 @@ where
     }
 
     pub fn token_stream(&self, text: &str, label: &str) -> TokenStream<T> {
-        TokenStream::new(&self.lexicon, text, label)
+        TokenStream::for_text(&self.lexicon, text, label)
     }
 }
 
-- 
2.43.0


From 501cfbc1f6811060e11f21acc9c0ee23e55c4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 06/31] fix: calculate first sets as a fixed point over all of
 the non terminals

The recursive calculation never ended for indirect left recursion and could
miss tokens when a symbol's transparency was discovered late.
---
 alalr1_lib/src/grammar.rs             | 23 ++++----
 alalr1_lib/src/symbol/non_terminal.rs | 79 +++++++++++----------------
 lalr1_lib/src/grammar.rs              | 23 ++++----
 lalr1_lib/src/symbol/non_terminal.rs  | 79 +++++++++++----------------
 4 files changed, 90 insertions(+), 114 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..3b29735 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -56,16 +56,19 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut firsts_data_changed = true;
+        while firsts_data_changed {
+            firsts_data_changed = spec
+                .symbol_table
+                .start_non_terminal()
+                .extend_firsts_data(&spec.productions);
+            firsts_data_changed |= spec
+                .symbol_table
+                .error_non_terminal()
+                .extend_firsts_data(&spec.productions);
+            for non_terminal in spec.symbol_table.non_terminals() {
+                firsts_data_changed |= non_terminal.extend_firsts_data(&spec.productions);
+            }
         }
         Ok(spec)
     }
diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..8f69a89 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -180,74 +180,59 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// What is known about this symbol's first tokens at this stage of the calculation
+    fn firsts_data_so_far(&self) -> FirstsData {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
+            | NonTerminal::Start(non_terminal_data) => non_terminal_data
+                .firsts_data
+                .borrow()
+                .clone()
+                .unwrap_or_default(),
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
+    /// Extend this symbol's firsts data using what is known about the other symbols and return
+    /// `true` if that changed anything (i.e. it needs to be repeated until nothing changes).
+    pub fn extend_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
+                let FirstsData {
+                    mut token_set,
+                    mut transparent,
+                } = self.firsts_data_so_far();
+                let num_tokens = token_set.len();
+                let was_transparent = transparent;
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = non_terminal.firsts_data_so_far();
+                                token_set |= &firsts_data.token_set;
+                                if !firsts_data.transparent {
                                     transparent_production = false;
                                     break;
                                 }
                             }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                            Symbol::Terminal(token) => {
+                                token_set.insert(token);
+                                transparent_production = false;
+                                break;
+                            }
                         }
                     }
+                    transparent |= transparent_production;
                 }
+                let changed = token_set.len() > num_tokens || transparent != was_transparent;
                 *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                changed
             }
         }
     }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..dbd3ddf 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -52,16 +52,19 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut firsts_data_changed = true;
+        while firsts_data_changed {
+            firsts_data_changed = spec
+                .symbol_table
+                .start_non_terminal()
+                .extend_firsts_data(&spec.productions);
+            firsts_data_changed |= spec
+                .symbol_table
+                .error_non_terminal()
+                .extend_firsts_data(&spec.productions);
+            for non_terminal in spec.symbol_table.non_terminals() {
+                firsts_data_changed |= non_terminal.extend_firsts_data(&spec.productions);
+            }
         }
         Ok(spec)
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..8f69a89 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -180,74 +180,59 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// What is known about this symbol's first tokens at this stage of the calculation
+    fn firsts_data_so_far(&self) -> FirstsData {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
+            | NonTerminal::Start(non_terminal_data) => non_terminal_data
+                .firsts_data
+                .borrow()
+                .clone()
+                .unwrap_or_default(),
         }
     }
 
-    pub fn set_firsts_data(&self, productions: &[Production]) {
+    /// Extend this symbol's firsts data using what is known about the other symbols and return
+    /// `true` if that changed anything (i.e. it needs to be repeated until nothing changes).
+    pub fn extend_firsts_data(&self, productions: &[Production]) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
+                let FirstsData {
+                    mut token_set,
+                    mut transparent,
+                } = self.firsts_data_so_far();
+                let num_tokens = token_set.len();
+                let was_transparent = transparent;
+                for production in productions.iter().filter(|x| x.left_hand_side() == self) {
+                    let mut transparent_production = true;
+                    for rhs_symbol in production.right_hand_side_symbols() {
+                        match rhs_symbol {
+                            Symbol::NonTerminal(non_terminal) => {
+                                let firsts_data = non_terminal.firsts_data_so_far();
+                                token_set |= &firsts_data.token_set;
+                                if !firsts_data.transparent {
                                     transparent_production = false;
                                     break;
                                 }
                             }
-                        }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                            Symbol::Terminal(token) => {
+                                token_set.insert(token);
+                                transparent_production = false;
+                                break;
+                            }
                         }
                     }
+                    transparent |= transparent_production;
                 }
+                let changed = token_set.len() > num_tokens || transparent != was_transparent;
                 *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
                     token_set,
                     transparent,
                 });
+                changed
             }
         }
     }
-- 
2.43.0


From 8ccef8ab6934a6052cd156c21fbed26174834534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:52 +0000
Subject: [PATCH 07/31] fix: merge look ahead sets of closure items with those
 of kernel items

The items that a state's closure adds kept the look ahead sets that they had
when the state was created and reductions by them for the look ahead tokens
merged later were missing from the parser's tables.
---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..cb53d72 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..8536e07 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -101,7 +101,7 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
-- 
2.43.0


From b765b0cc5bbb9de2af1fb356da3f7ae4cc68fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 08/31] fix: don't count conflicts resolved by right
 associativity as unresolved

They were already resolved (as shifts) but, unlike those resolved by left
associativity, had to be declared as expected conflicts.
---
 alalr1_lib/src/state.rs | 4 +++-
 lalr1_lib/src/state.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index cb53d72..becd42c 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -179,7 +179,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.associativity() == Associativity::Right
+                || reducible_item.has_error_recovery_tail()
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 8536e07..943b057 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -179,7 +179,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.associativity() == Associativity::Right
+                || reducible_item.has_error_recovery_tail()
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
-- 
2.43.0


From 953ab92a40f0117adb00438ab4f3032b94d7e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:27 +0000
Subject: [PATCH 09/31] fix: number productions per specification

Production identifiers came from a process wide counter so the parser for any
grammar after the first generated by a process had no accept action.
---
 alalr1_lib/src/grammar.rs    | 13 +++++++++----
 alalr1_lib/src/production.rs | 11 +++--------
 lalr1_lib/src/grammar.rs     | 13 +++++++++----
 lalr1_lib/src/production.rs  | 11 +++--------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 3b29735..cbf2417 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let ident = spec.productions.len();
+            spec.productions.push(Production::new(ident, symbol, tail));
         }
         let mut firsts_data_changed = true;
         while firsts_data_changed {
@@ -99,11 +100,15 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
-        self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+        let ident = self.productions.len();
+        self.productions.push(Production::new(
+            ident,
+            left_hand_side.clone(),
+            tail.clone(),
+        ));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..72d8815 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,11 +70,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -108,9 +102,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// NB: `ident` should be the production's index within its specification's productions
+    pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident as u32),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index dbd3ddf..5d7dd9e 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let ident = spec.productions.len();
+            spec.productions.push(Production::new(ident, symbol, tail));
         }
         let mut firsts_data_changed = true;
         while firsts_data_changed {
@@ -95,11 +96,15 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
-        self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+        let ident = self.productions.len();
+        self.productions.push(Production::new(
+            ident,
+            left_hand_side.clone(),
+            tail.clone(),
+        ));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..41363e4 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,11 +66,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -104,9 +98,10 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    /// NB: `ident` should be the production's index within its specification's productions
+    pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident as u32),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From 1d646af60360b6c52b9ce161948259ff71ca8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 10/31] fix: report invalid left hand sides and duplicate tags
 instead of panicking

The semantic actions left the attribute unset after reporting the error and
its use by enclosing actions caused a panic.
---
 alalr1_lib/src/parser.alaps | 12 ++++++++++--
 alalr1_lib/src/parser.rs    | 12 ++++++++++--
 lalr1_lib/src/parser.laps   | 12 ++++++++++--
 lalr1_lib/src/parser.rs     | 12 ++++++++++--
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..3ec4fee 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -275,7 +276,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -303,7 +307,11 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    $$ = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..feb5776 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -8,6 +8,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1514,7 +1515,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1537,7 +1541,11 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    aa_lhs = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         
             }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..caea3a8 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -12,6 +12,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -279,7 +280,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -307,7 +311,11 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    $$ = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..4044831 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1435,7 +1436,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1458,7 +1462,11 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    aa_lhs = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         
             }
-- 
2.43.0


From a01243b1f570e0b6b6e9ed61e9e665f820786c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 11/31] fix: reject token and skip definitions that the lexical
 analyser won't accept

Empty literals and patterns used more than once were accepted but construction
of the generated parser's lexical analyser always panicked.
---
 alalr1_lib/src/symbol.rs | 16 +++++++++++++++-
 lalr1_lib/src/symbol.rs  | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index 1ebb75d..146847e 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -69,6 +69,7 @@ pub enum Error {
     DuplicateTag(Tag),
     DuplicateToken(Token),
     DuplicateTokenDefinition(Token),
+    EmptyTokenDefinition(String),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
 }
@@ -100,6 +101,9 @@ impl fmt::Display for Error {
                     token.defined_at(),
                 )
             }
+            Error::EmptyTokenDefinition(name) => {
+                write!(f, "Token \"{name}\" has an empty definition")
+            }
             Error::ConflictsWithToken(token) => {
                 write!(
                     f,
@@ -190,6 +194,10 @@ impl SymbolTable {
         let token = Token::new_literal_token(name, text, defined_at);
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
+        } else if text == "\"\"" {
+            Err(Error::EmptyTokenDefinition(name.to_string()))
+        } else if let Some(other) = self.regex_tokens.get(text.trim_matches('"')) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
         } else {
@@ -206,6 +214,8 @@ impl SymbolTable {
         let token = Token::new_regex_token(name, text, defined_at);
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{text}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
         } else {
@@ -293,7 +303,11 @@ impl SymbolTable {
     }
 
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
-        if self.skip_rules.contains(skip_rule) {
+        if let Some(other) = self.regex_tokens.get(skip_rule) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{skip_rule}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
+        } else if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index ed3d639..10b7e84 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -69,6 +69,7 @@ pub enum Error {
     DuplicateTag(Tag),
     DuplicateToken(Token),
     DuplicateTokenDefinition(Token),
+    EmptyTokenDefinition(String),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
 }
@@ -100,6 +101,9 @@ impl fmt::Display for Error {
                     token.defined_at(),
                 )
             }
+            Error::EmptyTokenDefinition(name) => {
+                write!(f, "Token \"{name}\" has an empty definition")
+            }
             Error::ConflictsWithToken(token) => {
                 write!(
                     f,
@@ -190,6 +194,10 @@ impl SymbolTable {
         let token = Token::new_literal_token(name, text, defined_at);
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
+        } else if text == "\"\"" {
+            Err(Error::EmptyTokenDefinition(name.to_string()))
+        } else if let Some(other) = self.regex_tokens.get(text.trim_matches('"')) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
         } else {
@@ -206,6 +214,8 @@ impl SymbolTable {
         let token = Token::new_regex_token(name, text, defined_at);
         if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{text}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
         } else if let Some(other) = self.regex_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
         } else {
@@ -293,7 +303,11 @@ impl SymbolTable {
     }
 
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
-        if self.skip_rules.contains(skip_rule) {
+        if let Some(other) = self.regex_tokens.get(skip_rule) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
+        } else if let Some(other) = self.literal_tokens.get(&format!("\"{skip_rule}\"")) {
+            Err(Error::DuplicateTokenDefinition(other.clone()))
+        } else if self.skip_rules.contains(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
-- 
2.43.0


From de8f412705939368fc797177a56f1f3765ceb317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 12/31] fix: allow productions with predicates that have no
 alternative

A predicate without an unconditional alternative was either ignored (after
failing a debug assertion) or led to an if expression with no else branch.
Now it's a syntax error if none of the predicates are true.
---
 alalr1_lib/src/state.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index becd42c..896a7f7 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -292,10 +292,9 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
-                // NB this is clumsy but first() for OrderedSet is only experimental
-                let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
+            // NB this is clumsy but first() for OrderedSet is only experimental
+            let production = productions.iter().next().expect("len() >= 1");
+            if productions.len() == 1 && !production.has_predicate() {
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
@@ -344,6 +343,10 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if productions.iter().all(|x| x.has_predicate()) {
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n"))?;
+                    wtr.write_fmt(format_args!("{indent}            Action::SyntaxError\n"))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 3d2a65f673d7a63417a14af84b47db1cba0885a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:09 +0000
Subject: [PATCH 13/31] fix: describe productions with multi line predicates on
 one line

The description is used in comments in the generated code and the lines after
the first one weren't part of the comment.
---
 alalr1_lib/src/production.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 72d8815..c2f1a1c 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -225,7 +225,7 @@ impl Display for Production {
         };
         string += &format!(" #({}, {})", self.associativity(), self.precedence());
         if let Some(predicate) = &self.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            string += &format!(" ?({}?)", predicate.replace('\n', " "));
         };
         write!(f, "{string}")
     }
@@ -275,7 +275,7 @@ impl Display for GrammarItemKey {
             self.production.precedence()
         );
         if let Some(predicate) = &self.production.0.tail.0.predicate {
-            string += &format!(" ?({predicate}?)");
+            string += &format!(" ?({}?)", predicate.replace('\n', " "));
         };
         write!(f, "{string}")
     }
-- 
2.43.0


From 8294ec818a3ff8dcafdad0308ab62a10e05bda93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 14/31] fix: leave invalid attribute references in action and
 predicate code alone

Zero or very large attribute numbers (and ones that are too large for their
production in a predicate) caused the generator to panic and it's better that
the compiler complains about them.
---
 alalr1_lib/src/production.rs | 15 ++++++++++-----
 lalr1_lib/src/production.rs  |  5 ++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index c2f1a1c..54fca91 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -152,10 +152,12 @@ impl Production {
             let rhs_len = self.0.tail.0.right_hand_side.len();
             let string = RHS_CRE
                 .replace_all(predicate, |caps: &regex::Captures| {
-                    format!(
-                        "aa_attributes.at_len_minus_n({})",
-                        rhs_len + 1 - usize::from_str(&caps[1]).unwrap()
-                    )
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n <= rhs_len => {
+                            format!("aa_attributes.at_len_minus_n({})", rhs_len + 1 - n)
+                        }
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             let string = string.replace("$?", "aa_tag");
@@ -172,7 +174,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 && n <= self.len() => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 41363e4..7b05234 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -146,7 +146,10 @@ impl Production {
             let string = string.replace("$INJECT", "aa_inject");
             let string = RHS_CRE
                 .replace_all(&string, |caps: &regex::Captures| {
-                    format!("aa_rhs[{}]", usize::from_str(&caps[1]).unwrap() - 1)
+                    match usize::from_str(&caps[1]) {
+                        Ok(n) if n > 0 && n <= self.len() => format!("aa_rhs[{}]", n - 1),
+                        _ => caps[0].to_string(),
+                    }
                 })
                 .to_string();
             Some(string)
-- 
2.43.0


From 03e256eaa6e136339653e7004b47f10a7d46c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 15/31] fix: consider the initial state when recovering from
 errors

The state at the bottom of the stack was overlooked so there was no recovery
from errors at the start of the text.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..03ff5b7 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -113,7 +113,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..81bd696 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -171,7 +171,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
-- 
2.43.0


From 06441931cde1244f008e3537da95bc3186d5693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 16/31] fix: only change the last extension when deriving
 output file names

The file stem was treated as having an extension so, for example, the default
output file for a.b.laps was a.rs.
---
 alalr1_gen/src/main.rs | 2 +-
 lalr1_gen/src/main.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..836430f 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -16,7 +16,7 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     if let Some(dir) = path.parent() {
         new_path.push(dir);
     };
-    new_path.push(path.file_stem().unwrap());
+    new_path.push(path.file_name().unwrap());
     new_path.set_extension(new_extension);
     new_path
 }
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..a7a2373 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -17,7 +17,7 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     if let Some(dir) = path.parent() {
         new_path.push(dir);
     };
-    new_path.push(path.file_stem().unwrap());
+    new_path.push(path.file_name().unwrap());
     new_path.set_extension(new_extension);
     new_path
 }
-- 
2.43.0


From ea0e24a07910792398ae4a00ddc31ef1fec671f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 17/31] fix: include items in closures when their look ahead
 sets are empty

---
 alalr1_lib/src/grammar.rs | 33 ++++++++++++++++++---------------
 lalr1_lib/src/grammar.rs  | 33 ++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index cbf2417..476bd79 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -122,25 +122,28 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
+                            // NB: the look ahead set will be empty if what follows the left hand side
+                            // in its context can't be derived but the items are still required
+                            let mut firsts = TokenSet::new();
                             for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
+                                firsts |= &TokenSet::first_all_caps(
                                     item_key.rhs_tail(),
                                     look_ahead_symbol,
                                 );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            }
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 5d7dd9e..793f7e0 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -118,25 +118,28 @@ impl Specification {
                         Symbol::Terminal(_) => debug_assert!(!item_key.is_closable()),
                         Symbol::NonTerminal(prospective_lhs) => {
                             debug_assert!(item_key.is_closable());
+                            // NB: the look ahead set will be empty if what follows the left hand side
+                            // in its context can't be derived but the items are still required
+                            let mut firsts = TokenSet::new();
                             for look_ahead_symbol in look_ahead_set.iter() {
-                                let firsts = TokenSet::first_all_caps(
+                                firsts |= &TokenSet::first_all_caps(
                                     item_key.rhs_tail(),
                                     look_ahead_symbol,
                                 );
-                                for production in self
-                                    .productions
-                                    .iter()
-                                    .filter(|x| x.left_hand_side() == prospective_lhs)
-                                {
-                                    let prospective_key = GrammarItemKey::from(production);
-                                    if let Some(set) = closure_set.get_mut(&prospective_key) {
-                                        let len = set.len();
-                                        *set |= &firsts;
-                                        additions_made = additions_made || set.len() > len;
-                                    } else {
-                                        closure_set.insert(prospective_key, firsts.clone());
-                                        additions_made = true;
-                                    }
+                            }
+                            for production in self
+                                .productions
+                                .iter()
+                                .filter(|x| x.left_hand_side() == prospective_lhs)
+                            {
+                                let prospective_key = GrammarItemKey::from(production);
+                                if let Some(set) = closure_set.get_mut(&prospective_key) {
+                                    let len = set.len();
+                                    *set |= &firsts;
+                                    additions_made = additions_made || set.len() > len;
+                                } else {
+                                    closure_set.insert(prospective_key, firsts.clone());
+                                    additions_made = true;
                                 }
                             }
                         }
-- 
2.43.0


From babed2c006eb741e246a43b28208d1a7be0a6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 18/31] fix: read injected specification text after the
 injection's terminator

---
 alalr1_lib/src/parser.alaps | 14 +++++++++-----
 alalr1_lib/src/parser.rs    |  8 +++++++-
 lalr1_lib/src/parser.laps   | 14 +++++++++-----
 lalr1_lib/src/parser.rs     |  8 +++++++-
 4 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index 3ec4fee..bc0a40b 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -57,7 +57,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB Injected text is read before the "look ahead" token so it can't be injected
+// until the terminating "." has been accepted
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -75,10 +83,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index feb5776..36c1da5 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1315,7 +1315,13 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index caea3a8..d8a0643 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -58,7 +58,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB Injected text is read before the "look ahead" token so it can't be injected
+// until the terminating "." has been accepted
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -79,10 +87,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 4044831..e2ca1fb 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1231,7 +1231,13 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            aa_lhs = aa_rhs[1].clone();
+        
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
+                
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
-- 
2.43.0


From f7fece3508d54a8ecb59b93d6cad04714b27059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 19/31] fix: report recursive injections instead of looping for
 ever

---
 alalr1_lib/src/grammar.rs   | 14 +++++++++++++
 alalr1_lib/src/parser.alaps | 33 +++++++++++++++++++------------
 alalr1_lib/src/parser.rs    | 33 +++++++++++++++++++------------
 lalr1_lib/src/grammar.rs    | 14 +++++++++++++
 lalr1_lib/src/parser.laps   | 39 +++++++++++++++++++++++--------------
 lalr1_lib/src/parser.rs     | 39 +++++++++++++++++++++++--------------
 6 files changed, 118 insertions(+), 54 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 476bd79..e2138a6 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -38,6 +38,8 @@ pub struct Specification {
     pub warning_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
+    // the labels of the texts from which files were last injected
+    pub(crate) injectors: BTreeMap<String, String>,
 }
 
 impl alalr1::ReportError<AATerminal> for Specification {}
@@ -88,6 +90,18 @@ impl Specification {
         self.warning_count += 1;
     }
 
+    /// Is `file_path` the text being read or one of the texts into which it is being injected?
+    pub(crate) fn is_being_read(&self, file_path: &str, current: &str) -> bool {
+        let mut label = current;
+        while label != file_path {
+            match self.injectors.get(label) {
+                Some(injector) => label = injector,
+                None => return false,
+            }
+        }
+        true
+    }
+
     pub fn set_preamble(&mut self, preamble: &str) {
         self.preamble = preamble.to_string();
     }
diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index bc0a40b..968017a 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -67,19 +67,28 @@ Injection: InjectionHead "."
         !{
             let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
-            match File::open(file_path) {
-                Ok(mut file) => {
-                    let mut text = String::new();
-                    if let Err(err) = file.read_to_string(&mut text) {
-                        self.error(location, &format!("Injecting: {err}"));
-                    } else if text.is_empty() {
-                        self.error(location, &format!("Injected file \"{file_path}\" is empty."));
-                    } else {
-                        $INJECT(text, file_path.to_string());
+            if self.is_being_read(file_path, location.label()) {
+                self.error(
+                    location,
+                    &format!("Recursive injection of file \"{file_path}\"")
+                );
+            } else {
+                match File::open(file_path) {
+                    Ok(mut file) => {
+                        let mut text = String::new();
+                        if let Err(err) = file.read_to_string(&mut text) {
+                            self.error(location, &format!("Injecting: {err}"));
+                        } else if text.is_empty() {
+                            self.error(location, &format!("Injected file \"{file_path}\" is empty."));
+                        } else {
+                            self.injectors
+                                .insert(file_path.to_string(), location.label().to_string());
+                            $INJECT(text, file_path.to_string());
+                        }
                     }
-                }
-                Err(err) => self.error(location, &format!("Injecting: {err}.")),
-            };
+                    Err(err) => self.error(location, &format!("Injecting: {err}.")),
+                };
+            }
         !}
     .
 
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index 36c1da5..32ab756 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1323,19 +1323,28 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 
             let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
-            match File::open(file_path) {
-                Ok(mut file) => {
-                    let mut text = String::new();
-                    if let Err(err) = file.read_to_string(&mut text) {
-                        self.error(location, &format!("Injecting: {err}"));
-                    } else if text.is_empty() {
-                        self.error(location, &format!("Injected file \"{file_path}\" is empty."));
-                    } else {
-                        aa_inject(text, file_path.to_string());
+            if self.is_being_read(file_path, location.label()) {
+                self.error(
+                    location,
+                    &format!("Recursive injection of file \"{file_path}\"")
+                );
+            } else {
+                match File::open(file_path) {
+                    Ok(mut file) => {
+                        let mut text = String::new();
+                        if let Err(err) = file.read_to_string(&mut text) {
+                            self.error(location, &format!("Injecting: {err}"));
+                        } else if text.is_empty() {
+                            self.error(location, &format!("Injected file \"{file_path}\" is empty."));
+                        } else {
+                            self.injectors
+                                .insert(file_path.to_string(), location.label().to_string());
+                            aa_inject(text, file_path.to_string());
+                        }
                     }
-                }
-                Err(err) => self.error(location, &format!("Injecting: {err}.")),
-            };
+                    Err(err) => self.error(location, &format!("Injecting: {err}.")),
+                };
+            }
         
             }
             6 => {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 793f7e0..b3cd568 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -34,6 +34,8 @@ pub struct Specification {
     pub warning_count: u32,
     pub expected_rr_conflicts: u32,
     pub expected_sr_conflicts: u32,
+    // the labels of the texts from which files were last injected
+    pub(crate) injectors: BTreeMap<String, String>,
 }
 
 impl lalr1::ReportError<AATerminal> for Specification {}
@@ -84,6 +86,18 @@ impl Specification {
         self.warning_count += 1;
     }
 
+    /// Is `file_path` the text being read or one of the texts into which it is being injected?
+    pub(crate) fn is_being_read(&self, file_path: &str, current: &str) -> bool {
+        let mut label = current;
+        while label != file_path {
+            match self.injectors.get(label) {
+                Some(injector) => label = injector,
+                None => return false,
+            }
+        }
+        true
+    }
+
     pub fn set_preamble(&mut self, preamble: &str) {
         self.preamble = preamble.to_string();
     }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index d8a0643..a1f45f6 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -68,22 +68,31 @@ Injection: InjectionHead "."
         !{
             let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
-            match File::open(file_path) {
-                Ok(mut file) => {
-                    let mut text = String::new();
-                    if let Err(err) = file.read_to_string(&mut text) {
-                        self.error(location, &format!("Injecting: {err}"));
-                    } else if text.is_empty() {
-                        self.error(
-                            location,
-                            &format!("Injected file \"{file_path}\" is empty.")
-                        );
-                    } else {
-                        $INJECT(text, file_path.to_string());
+            if self.is_being_read(file_path, location.label()) {
+                self.error(
+                    location,
+                    &format!("Recursive injection of file \"{file_path}\"")
+                );
+            } else {
+                match File::open(file_path) {
+                    Ok(mut file) => {
+                        let mut text = String::new();
+                        if let Err(err) = file.read_to_string(&mut text) {
+                            self.error(location, &format!("Injecting: {err}"));
+                        } else if text.is_empty() {
+                            self.error(
+                                location,
+                                &format!("Injected file \"{file_path}\" is empty.")
+                            );
+                        } else {
+                            self.injectors
+                                .insert(file_path.to_string(), location.label().to_string());
+                            $INJECT(text, file_path.to_string());
+                        }
                     }
-                }
-                Err(err) => self.error(location, &format!("Injecting: {err}.")),
-            };
+                    Err(err) => self.error(location, &format!("Injecting: {err}.")),
+                };
+            }
         !}
     .
 
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index e2ca1fb..443d672 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1239,22 +1239,31 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 
             let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
-            match File::open(file_path) {
-                Ok(mut file) => {
-                    let mut text = String::new();
-                    if let Err(err) = file.read_to_string(&mut text) {
-                        self.error(location, &format!("Injecting: {err}"));
-                    } else if text.is_empty() {
-                        self.error(
-                            location,
-                            &format!("Injected file \"{file_path}\" is empty.")
-                        );
-                    } else {
-                        aa_inject(text, file_path.to_string());
+            if self.is_being_read(file_path, location.label()) {
+                self.error(
+                    location,
+                    &format!("Recursive injection of file \"{file_path}\"")
+                );
+            } else {
+                match File::open(file_path) {
+                    Ok(mut file) => {
+                        let mut text = String::new();
+                        if let Err(err) = file.read_to_string(&mut text) {
+                            self.error(location, &format!("Injecting: {err}"));
+                        } else if text.is_empty() {
+                            self.error(
+                                location,
+                                &format!("Injected file \"{file_path}\" is empty.")
+                            );
+                        } else {
+                            self.injectors
+                                .insert(file_path.to_string(), location.label().to_string());
+                            aa_inject(text, file_path.to_string());
+                        }
                     }
-                }
-                Err(err) => self.error(location, &format!("Injecting: {err}.")),
-            };
+                    Err(err) => self.error(location, &format!("Injecting: {err}.")),
+                };
+            }
         
             }
             6 => {
-- 
2.43.0


From 09bf6a6b48d03525e02b269793b3ec23d4696115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 20/31] fix: escape braces in the format strings for displaying
 literal tokens

---
 alalr1_lib/src/grammar.rs | 4 +++-
 lalr1_lib/src/grammar.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index e2138a6..b78020d 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -454,7 +454,9 @@ impl Grammar {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
                         "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        token_data.name,
+                        // NB: it's a format string
+                        token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
                 }
                 Token::Regex(token_data) => {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index b3cd568..7a6baba 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -450,7 +450,9 @@ impl Grammar {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
                         "{} => write!(f, r###\"{}\"###),\n",
-                        token_data.name, token_data.text
+                        token_data.name,
+                        // NB: it's a format string
+                        token_data.text.replace('{', "{{").replace('}', "}}")
                     ))?;
                 }
                 Token::Regex(token_data) => {
-- 
2.43.0


From d4b7cfccd475ec7cb80135ed1da666dfe65dd56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 21/31] fix: do not panic on specification paths without a file
 name

---
 alalr1_gen/src/main.rs | 8 +-------
 lalr1_gen/src/main.rs  | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 836430f..e2b7f35 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -12,13 +12,7 @@ use std::{
 use alalr1_lib::grammar;
 
 fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_name().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
+    path.with_extension(new_extension)
 }
 
 #[derive(Debug, StructOpt)]
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index a7a2373..aa169f8 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -13,13 +13,7 @@ use std::{
 use lalr1_lib::grammar;
 
 fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_name().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
+    path.with_extension(new_extension)
 }
 
 #[derive(Debug, StructOpt)]
-- 
2.43.0


From b3021a2171dc9f3a5d48242b7906259446a48d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:32 +0000
Subject: [PATCH 22/31] fix: refuse to overwrite the parser code or the
 specification with the states' description

---
 alalr1_gen/src/main.rs | 18 +++++++++++++++++-
 lalr1_gen/src/main.rs  | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index e2b7f35..6a0f56c 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -15,6 +15,13 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     path.with_extension(new_extension)
 }
 
+fn is_same_file(path_a: &Path, path_b: &Path) -> bool {
+    match (path_a.canonicalize(), path_b.canonicalize()) {
+        (Ok(path_a), Ok(path_b)) => path_a == path_b,
+        _ => path_a == path_b,
+    }
+}
+
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "alalr1_gen",
@@ -53,6 +60,16 @@ fn main() {
         );
         std::process::exit(1);
     }
+    let description_file = with_changed_extension(&output_path, "states");
+    for path in [&output_path, &cl_options.specification] {
+        if is_same_file(&description_file, path) {
+            eprintln!(
+                "{}: would be overwritten by the description of the parser's states",
+                path.to_string_lossy()
+            );
+            std::process::exit(1);
+        }
+    }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
         Err(error) => {
@@ -116,7 +133,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index aa169f8..d1224c2 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -16,6 +16,13 @@ fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
     path.with_extension(new_extension)
 }
 
+fn is_same_file(path_a: &Path, path_b: &Path) -> bool {
+    match (path_a.canonicalize(), path_b.canonicalize()) {
+        (Ok(path_a), Ok(path_b)) => path_a == path_b,
+        _ => path_a == path_b,
+    }
+}
+
 #[derive(Debug, StructOpt)]
 #[structopt(
     name = "lalr1_gen",
@@ -54,6 +61,16 @@ fn main() {
         );
         std::process::exit(1);
     }
+    let description_file = with_changed_extension(&output_path, "states");
+    for path in [&output_path, &cl_options.specification] {
+        if is_same_file(&description_file, path) {
+            eprintln!(
+                "{}: would be overwritten by the description of the parser's states",
+                path.to_string_lossy()
+            );
+            std::process::exit(1);
+        }
+    }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
         Err(error) => {
@@ -117,7 +134,6 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-- 
2.43.0


From 0cb4b79270a87370d2131bc8efb83ae8555f83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 23/31] fix: generated code with tokens named 'state' or 'set'
 did not compile

---
 alalr1_lib/src/grammar.rs | 12 ++++++------
 lalr1_lib/src/grammar.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index b78020d..2a6e967 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -423,9 +423,9 @@ impl Grammar {
         wtr.write_all(b"    () => { OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = OrderedSet::new();\n")?;
-        wtr.write_all(b"            $( set.insert($x); )*\n")?;
-        wtr.write_all(b"            set\n")?;
+        wtr.write_all(b"            let mut aa_set = OrderedSet::new();\n")?;
+        wtr.write_all(b"            $( aa_set.insert($x); )*\n")?;
+        wtr.write_all(b"            aa_set\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),+ , ) => {\n")?;
@@ -640,9 +640,9 @@ impl Grammar {
     }
 
     fn write_look_ahead_set_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn look_ahead_set(state: u32) -> OrderedSet<AATerminal> {\n")?;
+        wtr.write_all(b"    fn look_ahead_set(aa_state: u32) -> OrderedSet<AATerminal> {\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
-        wtr.write_all(b"        match state {\n")?;
+        wtr.write_all(b"        match aa_state {\n")?;
         for parser_state in self.parser_states.iter() {
             wtr.write_fmt(format_args!(
                 "            {} => {},\n",
@@ -650,7 +650,7 @@ impl Grammar {
                 parser_state.look_ahead_set().formated_as_macro_call()
             ))?;
         }
-        wtr.write_all(b"            _ => panic!(\"illegal state: {state}\"),\n")?;
+        wtr.write_all(b"            _ => panic!(\"illegal state: {aa_state}\"),\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
         Ok(())
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7a6baba..adf68db 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -419,9 +419,9 @@ impl Grammar {
         wtr.write_all(b"    () => { OrderedSet::new() };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),* ) => {\n")?;
         wtr.write_all(b"        {\n")?;
-        wtr.write_all(b"            let mut set = OrderedSet::new();\n")?;
-        wtr.write_all(b"            $( set.insert($x); )*\n")?;
-        wtr.write_all(b"            set\n")?;
+        wtr.write_all(b"            let mut aa_set = OrderedSet::new();\n")?;
+        wtr.write_all(b"            $( aa_set.insert($x); )*\n")?;
+        wtr.write_all(b"            aa_set\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    };\n")?;
         wtr.write_all(b"    ( $( $x:expr ),+ , ) => {\n")?;
@@ -636,9 +636,9 @@ impl Grammar {
     }
 
     fn write_look_ahead_set_code<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
-        wtr.write_all(b"    fn look_ahead_set(state: u32) -> OrderedSet<AATerminal> {\n")?;
+        wtr.write_all(b"    fn look_ahead_set(aa_state: u32) -> OrderedSet<AATerminal> {\n")?;
         wtr.write_all(b"        use AATerminal::*;\n")?;
-        wtr.write_all(b"        match state {\n")?;
+        wtr.write_all(b"        match aa_state {\n")?;
         for parser_state in self.parser_states.iter() {
             wtr.write_fmt(format_args!(
                 "            {} => {},\n",
@@ -646,7 +646,7 @@ impl Grammar {
                 parser_state.look_ahead_set().formated_as_macro_call()
             ))?;
         }
-        wtr.write_all(b"            _ => panic!(\"illegal state: {state}\"),\n")?;
+        wtr.write_all(b"            _ => panic!(\"illegal state: {aa_state}\"),\n")?;
         wtr.write_all(b"        }\n")?;
         wtr.write_all(b"    }\n\n")?;
         Ok(())
-- 
2.43.0


From 3279988d54a487a72a09722eb853d2ad04ac2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 24/31] fix: a preamble ending in a line comment swallowed the
 first line of the generated code

---
 alalr1_lib/src/grammar.rs | 4 ++++
 lalr1_lib/src/grammar.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 2a6e967..1d323b1 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -172,6 +172,10 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        if !self.preamble.is_empty() && !self.preamble.ends_with('\n') {
+            // the preamble may end in a line comment
+            wtr.write_all(b"\n")?;
+        }
         Ok(())
     }
 
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index adf68db..6394d84 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -168,6 +168,10 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        if !self.preamble.is_empty() && !self.preamble.ends_with('\n') {
+            // the preamble may end in a line comment
+            wtr.write_all(b"\n")?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From a69b8d272fe8ea17cc872fb500b40d0ddc675ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 25/31] fix: definitions containing "### made the generated
 code invalid

---
 alalr1_lib/src/grammar.rs | 23 ++++++++++++++++-------
 lalr1_lib/src/grammar.rs  | 23 ++++++++++++++++-------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 1d323b1..9596031 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -19,6 +19,15 @@ use std::io;
 use std::io::{Write, stderr};
 use std::path::Path;
 
+/// Returns a Rust raw string literal whose value is `text`
+fn raw_string(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
 pub fn report_error(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Error: {what}.").expect("what?");
 }
@@ -457,10 +466,10 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => write!(f, {}),\n",
                         token_data.name,
                         // NB: it's a format string
-                        token_data.text.replace('{', "{{").replace('}', "}}")
+                        raw_string(&token_data.text.replace('{', "{{").replace('}', "}}"))
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -517,9 +526,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(&token.text()[1..token.text().len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -527,16 +536,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 6394d84..cc82278 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -15,6 +15,15 @@ use std::io;
 use std::io::{Write, stderr};
 use std::path::Path;
 
+/// Returns a Rust raw string literal whose value is `text`
+fn raw_string(text: &str) -> String {
+    let mut hashes = "###".to_string();
+    while text.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{text}\"{hashes}")
+}
+
 pub fn report_error(location: &lexan::Location, what: &str) {
     writeln!(stderr(), "{location}: Error: {what}.").expect("what?");
 }
@@ -453,10 +462,10 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => write!(f, {}),\n",
                         token_data.name,
                         // NB: it's a format string
-                        token_data.text.replace('{', "{{").replace('}', "}}")
+                        raw_string(&token_data.text.replace('{', "{{").replace('}', "}}"))
                     ))?;
                 }
                 Token::Regex(token_data) => {
@@ -513,9 +522,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(&token.text()[1..token.text().len() - 1])
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
@@ -523,16 +532,16 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {}),\n",
                 token.name(),
-                token.text()
+                raw_string(token.text())
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{},\n", raw_string(skip_rule)))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
-- 
2.43.0


From f21666ed1706e57f47b2984c2b3ac4b73fc79267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 26/31] fix: definitions with a quote and more than 254 hashes
 made the generated code invalid

---
 alalr1_lib/src/grammar.rs | 6 +++++-
 lalr1_lib/src/grammar.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 9596031..bf56f2f 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -19,12 +19,16 @@ use std::io;
 use std::io::{Write, stderr};
 use std::path::Path;
 
-/// Returns a Rust raw string literal whose value is `text`
+/// Returns a Rust string literal (raw if possible) whose value is `text`
 fn raw_string(text: &str) -> String {
     let mut hashes = "###".to_string();
     while text.contains(&format!("\"{hashes}")) {
         hashes.push('#');
     }
+    if hashes.len() > 255 {
+        // more than Rust allows
+        return format!("{text:?}");
+    }
     format!("r{hashes}\"{text}\"{hashes}")
 }
 
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index cc82278..9be9afd 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -15,12 +15,16 @@ use std::io;
 use std::io::{Write, stderr};
 use std::path::Path;
 
-/// Returns a Rust raw string literal whose value is `text`
+/// Returns a Rust string literal (raw if possible) whose value is `text`
 fn raw_string(text: &str) -> String {
     let mut hashes = "###".to_string();
     while text.contains(&format!("\"{hashes}")) {
         hashes.push('#');
     }
+    if hashes.len() > 255 {
+        // more than Rust allows
+        return format!("{text:?}");
+    }
     format!("r{hashes}\"{text}\"{hashes}")
 }
 
-- 
2.43.0


From e40323956a709045d1b83d6502c0dab343919f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 27/31] fix: long literals overflowed the stack

---
 lexan/src/matcher.rs | 72 +++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index c539b96..943f53f 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -3,7 +3,11 @@
 use regex::{Match, Regex};
 use std::cmp::Ordering;
 use std::fmt::Display;
-use std::{cmp::Eq, collections::HashMap, fmt::Debug};
+use std::{
+    cmp::Eq,
+    collections::{HashMap, hash_map::Entry},
+    fmt::Debug,
+};
 
 use crate::error::LexanError;
 
@@ -14,25 +18,33 @@ struct LiteralMatcherNode<T: PartialEq + Debug + Copy> {
     tails: HashMap<u8, LiteralMatcherNode<T>>,
 }
 
+// NB: the nodes are created, extended and dropped iteratively as there is one per byte of a literal
+
+impl<T: PartialEq + Debug + Copy> Drop for LiteralMatcherNode<T> {
+    fn drop(&mut self) {
+        let mut nodes: Vec<_> = self.tails.drain().map(|(_, node)| node).collect();
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.tails.drain().map(|(_, node)| node));
+        }
+    }
+}
+
 impl<T: PartialEq + Debug + Copy + Display> LiteralMatcherNode<T> {
     fn new(tag: T, string: &str, s_index: usize) -> LiteralMatcherNode<T> {
         debug_assert!(!string.is_empty());
-        let mut t = HashMap::<u8, LiteralMatcherNode<T>>::new();
-        if string.len() == s_index {
-            LiteralMatcherNode {
-                tag: Some(tag),
-                length: string.len(),
-                tails: t,
-            }
-        } else {
-            let key = string.as_bytes()[s_index];
-            t.insert(key, LiteralMatcherNode::<T>::new(tag, string, s_index + 1));
-            LiteralMatcherNode {
+        let mut node = LiteralMatcherNode {
+            tag: Some(tag),
+            length: string.len(),
+            tails: HashMap::new(),
+        };
+        for (length, key) in string.bytes().enumerate().skip(s_index).rev() {
+            node = LiteralMatcherNode {
                 tag: None,
-                length: s_index,
-                tails: t,
-            }
+                length,
+                tails: HashMap::from([(key, node)]),
+            };
         }
+        node
     }
 
     fn add<'a>(
@@ -42,23 +54,21 @@ impl<T: PartialEq + Debug + Copy + Display> LiteralMatcherNode<T> {
         s_index: usize,
     ) -> Result<(), LexanError<'a, T>> {
         debug_assert!(!string.is_empty());
-        if string.len() == s_index {
-            if self.tag.is_some() {
-                return Err(LexanError::DuplicatePattern(string));
-            }
-            self.tag = Some(tag);
-            self.length = string.len();
-        } else {
-            let key = string.as_bytes()[s_index];
-            if let std::collections::hash_map::Entry::Vacant(e) = self.tails.entry(key) {
-                e.insert(LiteralMatcherNode::<T>::new(tag, string, s_index + 1));
-            } else {
-                self.tails
-                    .get_mut(&key)
-                    .unwrap()
-                    .add(tag, string, s_index + 1)?;
+        let mut node = self;
+        for (index, key) in string.bytes().enumerate().skip(s_index) {
+            match node.tails.entry(key) {
+                Entry::Vacant(e) => {
+                    e.insert(LiteralMatcherNode::<T>::new(tag, string, index + 1));
+                    return Ok(());
+                }
+                Entry::Occupied(e) => node = e.into_mut(),
             }
         }
+        if node.tag.is_some() {
+            return Err(LexanError::DuplicatePattern(string));
+        }
+        node.tag = Some(tag);
+        node.length = string.len();
         Ok(())
     }
 }
@@ -78,7 +88,7 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
             }
 
             let key = pattern.as_bytes()[0];
-            if let std::collections::hash_map::Entry::Vacant(e) = lexes.entry(key) {
+            if let Entry::Vacant(e) = lexes.entry(key) {
                 e.insert(LiteralMatcherNode::<T>::new(tag, pattern, 1));
             } else {
                 lexes.get_mut(&key).unwrap().add(tag, pattern, 1)?;
-- 
2.43.0


From bedbc2574ce95409dab2b5ddb25d1a168fbeab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 28/31] fix: more than 65535 precedence levels overflowed

---
 alalr1_lib/src/attributes.rs      |  4 ++--
 alalr1_lib/src/production.rs      | 10 +++++-----
 alalr1_lib/src/symbol.rs          |  2 +-
 alalr1_lib/src/symbol/tag.rs      |  6 +++---
 alalr1_lib/src/symbol/terminal.rs |  8 ++++----
 lalr1_lib/src/attributes.rs       |  4 ++--
 lalr1_lib/src/production.rs       | 10 +++++-----
 lalr1_lib/src/symbol.rs           |  2 +-
 lalr1_lib/src/symbol/tag.rs       |  6 +++---
 lalr1_lib/src/symbol/terminal.rs  |  8 ++++----
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/alalr1_lib/src/attributes.rs b/alalr1_lib/src/attributes.rs
index a2965df..27a8a91 100644
--- a/alalr1_lib/src/attributes.rs
+++ b/alalr1_lib/src/attributes.rs
@@ -27,7 +27,7 @@ pub enum AttributeData {
     ProductionTailList(Vec<ProductionTail>),
     Action(String),
     Predicate(String),
-    AssociativityAndPrecedence(Associativity, u16),
+    AssociativityAndPrecedence(Associativity, u32),
     #[default]
     Default,
 }
@@ -163,7 +163,7 @@ impl AttributeData {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             AttributeData::AssociativityAndPrecedence(associativity, precedence) => {
                 (*associativity, *precedence)
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 54fca91..aead921 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -20,7 +20,7 @@ pub struct ProductionTailData {
     right_hand_side: Vec<Symbol>,
     predicate: Option<String>,
     associativity: Associativity,
-    precedence: u16,
+    precedence: u32,
     action: Option<String>,
 }
 
@@ -37,7 +37,7 @@ impl ProductionTail {
     pub fn new(
         right_hand_side: &[Symbol],
         o_predicate: Option<&str>,
-        associative_precedence: Option<(Associativity, u16)>,
+        associative_precedence: Option<(Associativity, u32)>,
         o_action: Option<&str>,
     ) -> Self {
         let predicate = o_predicate.map(|predicate| predicate.to_string());
@@ -57,7 +57,7 @@ impl ProductionTail {
     }
 }
 
-fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
+fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u32)> {
     for symbol in symbols.iter() {
         if let Symbol::Terminal(token) = symbol {
             return Some(token.associativity_and_precedence());
@@ -139,7 +139,7 @@ impl Production {
         self.0.tail.0.associativity
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.tail.0.precedence
     }
 
@@ -345,7 +345,7 @@ impl GrammarItemKey {
         self.production.associativity()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.production.precedence()
     }
 
diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index 146847e..cd54b58 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -127,7 +127,7 @@ pub struct SymbolTable {
     regex_tokens: BTreeMap<String, Token>,
     non_terminals: BTreeMap<String, NonTerminal>,
     skip_rules: Vec<String>,
-    last_precedence: u16,
+    last_precedence: u32,
     start_non_terminal: NonTerminal,
     pub error_non_terminal: NonTerminal,
 }
diff --git a/alalr1_lib/src/symbol/tag.rs b/alalr1_lib/src/symbol/tag.rs
index 8fec117..b5dad40 100644
--- a/alalr1_lib/src/symbol/tag.rs
+++ b/alalr1_lib/src/symbol/tag.rs
@@ -11,7 +11,7 @@ pub struct TagData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TagData {
@@ -50,7 +50,7 @@ impl Tag {
         self.0.associativity.get()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.precedence.get()
     }
 
@@ -66,7 +66,7 @@ impl Tag {
         self.0.associativity.set(associativity)
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         self.0.precedence.set(precedence)
     }
 }
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 338c8c8..5648034 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -17,7 +17,7 @@ pub struct TokenData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TokenData {
@@ -115,7 +115,7 @@ impl Token {
         }
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => token_data.precedence.get(),
             Token::End => 0,
@@ -131,7 +131,7 @@ impl Token {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
                 (token_data.associativity.get(), token_data.precedence.get())
@@ -158,7 +158,7 @@ impl Token {
         }
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         debug_assert!(precedence > 0);
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
diff --git a/lalr1_lib/src/attributes.rs b/lalr1_lib/src/attributes.rs
index c4e034d..253c76d 100644
--- a/lalr1_lib/src/attributes.rs
+++ b/lalr1_lib/src/attributes.rs
@@ -22,7 +22,7 @@ pub enum AttributeData {
     ProductionTail(ProductionTail),
     ProductionTailList(Vec<ProductionTail>),
     Action(String),
-    AssociativityAndPrecedence(Associativity, u16),
+    AssociativityAndPrecedence(Associativity, u32),
     #[default]
     Default,
 }
@@ -151,7 +151,7 @@ impl AttributeData {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             AttributeData::AssociativityAndPrecedence(associativity, precedence) => {
                 (*associativity, *precedence)
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 7b05234..97f78df 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -19,7 +19,7 @@ use std::str::FromStr;
 pub struct ProductionTailData {
     right_hand_side: Vec<Symbol>,
     associativity: Associativity,
-    precedence: u16,
+    precedence: u32,
     action: Option<String>,
 }
 
@@ -35,7 +35,7 @@ impl Clone for ProductionTail {
 impl ProductionTail {
     pub fn new(
         right_hand_side: &[Symbol],
-        associative_precedence: Option<(Associativity, u16)>,
+        associative_precedence: Option<(Associativity, u32)>,
         o_action: Option<&str>,
     ) -> Self {
         let action = o_action.map(|action| action.to_string());
@@ -53,7 +53,7 @@ impl ProductionTail {
     }
 }
 
-fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
+fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u32)> {
     for symbol in symbols.iter() {
         if let Symbol::Terminal(token) = symbol {
             return Some(token.associativity_and_precedence());
@@ -135,7 +135,7 @@ impl Production {
         self.0.tail.0.associativity
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.tail.0.precedence
     }
 
@@ -311,7 +311,7 @@ impl GrammarItemKey {
         self.production.associativity()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.production.precedence()
     }
 
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index 10b7e84..f1a1cec 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -127,7 +127,7 @@ pub struct SymbolTable {
     regex_tokens: BTreeMap<String, Token>,
     non_terminals: BTreeMap<String, NonTerminal>,
     skip_rules: Vec<String>,
-    last_precedence: u16,
+    last_precedence: u32,
     start_non_terminal: NonTerminal,
     pub error_non_terminal: NonTerminal,
 }
diff --git a/lalr1_lib/src/symbol/tag.rs b/lalr1_lib/src/symbol/tag.rs
index 8fec117..b5dad40 100644
--- a/lalr1_lib/src/symbol/tag.rs
+++ b/lalr1_lib/src/symbol/tag.rs
@@ -11,7 +11,7 @@ pub struct TagData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TagData {
@@ -50,7 +50,7 @@ impl Tag {
         self.0.associativity.get()
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         self.0.precedence.get()
     }
 
@@ -66,7 +66,7 @@ impl Tag {
         self.0.associativity.set(associativity)
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         self.0.precedence.set(precedence)
     }
 }
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index f5a6ad8..fb82639 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -17,7 +17,7 @@ pub struct TokenData {
     defined_at: lexan::Location,
     used_at: RefCell<Vec<lexan::Location>>,
     associativity: Cell<Associativity>,
-    precedence: Cell<u16>,
+    precedence: Cell<u32>,
 }
 
 impl TokenData {
@@ -115,7 +115,7 @@ impl Token {
         }
     }
 
-    pub fn precedence(&self) -> u16 {
+    pub fn precedence(&self) -> u32 {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => token_data.precedence.get(),
             Token::End => 0,
@@ -131,7 +131,7 @@ impl Token {
         }
     }
 
-    pub fn associativity_and_precedence(&self) -> (Associativity, u16) {
+    pub fn associativity_and_precedence(&self) -> (Associativity, u32) {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
                 (token_data.associativity.get(), token_data.precedence.get())
@@ -158,7 +158,7 @@ impl Token {
         }
     }
 
-    pub fn set_precedence(&self, precedence: u16) {
+    pub fn set_precedence(&self, precedence: u32) {
         debug_assert!(precedence > 0);
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => {
-- 
2.43.0


From e8f1186be9adb78662e5a7bb2da6012c717ccbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 29/31] fix: definitions containing carriage returns or text
 flow control characters made the generated code invalid

---
 alalr1_lib/src/grammar.rs    | 12 ++++++++----
 alalr1_lib/src/production.rs | 18 ++++++++++++++++++
 alalr1_lib/src/state.rs      |  6 ++++--
 lalr1_lib/src/grammar.rs     | 12 ++++++++----
 lalr1_lib/src/production.rs  | 18 ++++++++++++++++++
 lalr1_lib/src/state.rs       |  3 ++-
 6 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index bf56f2f..2518219 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -4,7 +4,9 @@
 use crate::bootstrap::AATerminal;
 #[cfg(not(feature = "bootstrap"))]
 use crate::parser::AATerminal;
-use crate::production::{GrammarItemKey, GrammarItemSet, Production, ProductionTail};
+use crate::production::{
+    GrammarItemKey, GrammarItemSet, Production, ProductionTail, is_text_flow_control,
+};
 use crate::state::ParserState;
 use crate::symbol::non_terminal::NonTerminal;
 use crate::symbol::terminal::{Token, TokenSet};
@@ -25,8 +27,9 @@ fn raw_string(text: &str) -> String {
     while text.contains(&format!("\"{hashes}")) {
         hashes.push('#');
     }
-    if hashes.len() > 255 {
-        // more than Rust allows
+    let unfit = |c: char| c == '\r' || is_text_flow_control(c);
+    if hashes.len() > 255 || text.contains(unfit) {
+        // not allowed in Rust's raw strings
         return format!("{text:?}");
     }
     format!("r{hashes}\"{text}\"{hashes}")
@@ -231,7 +234,8 @@ impl Specification {
         for production in self.productions.iter() {
             if let Some(action_code) = production.expanded_action() {
                 wtr.write_fmt(format_args!("            {} => {{\n", production.ident()))?;
-                wtr.write_fmt(format_args!("                // {production}\n"))?;
+                let description = production.one_line_description();
+                wtr.write_fmt(format_args!("                // {description}\n"))?;
                 wtr.write_fmt(format_args!("                {action_code}\n"))?;
                 wtr.write_all(b"            }\n")?;
             }
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index aead921..f3c9ec2 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -101,6 +101,11 @@ lazy_static! {
     static ref RHS_CRE: regex::Regex = regex::Regex::new(r"\$(\d+)").unwrap();
 }
 
+/// Rust rejects source code containing any of these characters
+pub fn is_text_flow_control(c: char) -> bool {
+    matches!(c, '\u{202A}'..='\u{202E}' | '\u{2066}'..='\u{2069}')
+}
+
 impl Production {
     /// NB: `ident` should be the production's index within its specification's productions
     pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
@@ -186,6 +191,19 @@ impl Production {
         }
     }
 
+    /// Returns a description suitable for use as a comment in Rust source code
+    pub fn one_line_description(&self) -> String {
+        let mut string = String::new();
+        for c in self.to_string().chars() {
+            if is_text_flow_control(c) {
+                string.extend(c.escape_unicode());
+            } else {
+                string.push(c);
+            }
+        }
+        string
+    }
+
     pub fn has_error_recovery_tail(&self) -> bool {
         if let Some(symbol) = self.0.tail.0.right_hand_side.last() {
             match symbol {
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 896a7f7..c6d4a3d 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -295,7 +295,8 @@ impl ParserState {
             // NB this is clumsy but first() for OrderedSet is only experimental
             let production = productions.iter().next().expect("len() >= 1");
             if productions.len() == 1 && !production.has_predicate() {
-                wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
+                let description = production.one_line_description();
+                wtr.write_fmt(format_args!("{indent}    // {description}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
                         "{}    {} => Action::Accept,\n",
@@ -332,7 +333,8 @@ impl ParserState {
                     } else {
                         wtr.write_fmt(format_args!("{indent}        }} else {{\n",))?;
                     }
-                    wtr.write_fmt(format_args!("{indent}            // {production}\n"))?;
+                    let description = production.one_line_description();
+                    wtr.write_fmt(format_args!("{indent}            // {description}\n"))?;
                     if production.is_start_production() {
                         wtr.write_fmt(format_args!("{indent}            Action::Accept\n",))?;
                     } else {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 9be9afd..3b39854 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -1,7 +1,9 @@
 // Copyright (c) 2026 Peter Williams <pwil3058@bigpond.net.au> <pwil3058@gmail.com>.
 
 use crate::parser::AATerminal;
-use crate::production::{GrammarItemKey, GrammarItemSet, Production, ProductionTail};
+use crate::production::{
+    GrammarItemKey, GrammarItemSet, Production, ProductionTail, is_text_flow_control,
+};
 use crate::state::ParserState;
 use crate::symbol::non_terminal::NonTerminal;
 use crate::symbol::terminal::{Token, TokenSet};
@@ -21,8 +23,9 @@ fn raw_string(text: &str) -> String {
     while text.contains(&format!("\"{hashes}")) {
         hashes.push('#');
     }
-    if hashes.len() > 255 {
-        // more than Rust allows
+    let unfit = |c: char| c == '\r' || is_text_flow_control(c);
+    if hashes.len() > 255 || text.contains(unfit) {
+        // not allowed in Rust's raw strings
         return format!("{text:?}");
     }
     format!("r{hashes}\"{text}\"{hashes}")
@@ -227,7 +230,8 @@ impl Specification {
         for production in self.productions.iter() {
             if let Some(action_code) = production.expanded_action() {
                 wtr.write_fmt(format_args!("            {} => {{\n", production.ident()))?;
-                wtr.write_fmt(format_args!("                // {production}\n"))?;
+                let description = production.one_line_description();
+                wtr.write_fmt(format_args!("                // {description}\n"))?;
                 wtr.write_fmt(format_args!("                {action_code}\n"))?;
                 wtr.write_all(b"            }\n")?;
             }
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 97f78df..663020b 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -97,6 +97,11 @@ lazy_static! {
     static ref RHS_CRE: regex::Regex = regex::Regex::new(r"\$(\d+)").unwrap();
 }
 
+/// Rust rejects source code containing any of these characters
+pub fn is_text_flow_control(c: char) -> bool {
+    matches!(c, '\u{202A}'..='\u{202E}' | '\u{2066}'..='\u{2069}')
+}
+
 impl Production {
     /// NB: `ident` should be the production's index within its specification's productions
     pub fn new(ident: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
@@ -158,6 +163,19 @@ impl Production {
         }
     }
 
+    /// Returns a description suitable for use as a comment in Rust source code
+    pub fn one_line_description(&self) -> String {
+        let mut string = String::new();
+        for c in self.to_string().chars() {
+            if is_text_flow_control(c) {
+                string.extend(c.escape_unicode());
+            } else {
+                string.push(c);
+            }
+        }
+        string
+    }
+
     pub fn has_error_recovery_tail(&self) -> bool {
         if let Some(symbol) = self.0.tail.0.right_hand_side.last() {
             match symbol {
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 943b057..9bba790 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -293,7 +293,8 @@ impl ParserState {
         }
         for (productions, look_ahead_set) in reductions.reductions() {
             for production in productions {
-                wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
+                let description = production.one_line_description();
+                wtr.write_fmt(format_args!("{indent}    // {description}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
                         "{}    {} => Action::Accept,\n",
-- 
2.43.0


From 00ce7123dafa4448aea07d1efb4a0877dfaba557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 30/31] fix: a predicate ending in a line comment commented out
 the code after it

---
 alalr1_lib/src/production.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index f3c9ec2..bf319b7 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -165,7 +165,11 @@ impl Production {
                     }
                 })
                 .to_string();
-            let string = string.replace("$?", "aa_tag");
+            let mut string = string.replace("$?", "aa_tag");
+            if string.contains("//") {
+                // may end in a comment
+                string.push('\n');
+            }
             Some(string)
         } else {
             None
-- 
2.43.0


From 7d1b34433ab2f7f973f2ad785fe95b36346863b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 31/31] fix: put every shift/reduce conflict of a state's
 description on lines of its own

Without the line feed the next conflict (or the heading of the reduce/reduce
conflicts, or of the next state) continued the line of the previous one.
---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index c6d4a3d..4181645 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -443,7 +443,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 9bba790..f1f6bc2 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -401,7 +401,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
-- 
2.43.0

