From d0ff081bd838d12aa9dba71bf21c6030a23fb1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:44 +0000
Subject: [PATCH 1/6] fix: nested repetitions matched strings outside the
 pattern's language

The edges added for ?, *, {0,}, {n,} and {0,m} could be taken in the middle of
a match when the repeated automaton had edges into its begin node or out of its
end node: (a*b)?c matched "ac", (ab*)?c matched "bc".
---
 tokenizer/src/nfa.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/nfa.rs b/tokenizer/src/nfa.rs
index 8890d84..6f01e82 100644
--- a/tokenizer/src/nfa.rs
+++ b/tokenizer/src/nfa.rs
@@ -224,6 +224,35 @@ impl Clone for NFA {
     }
 }
 
+impl NFA {
+    /// Ensures that no edge enters `begin` and no edge leaves `end`, so that edges added between them for a repetition cannot be used in the middle of a match.
+    fn isolate(mut self) -> Self {
+        let begin = Arc::as_ptr(&self.begin);
+        let is_entered = self.node.iter().any(|node| {
+            let node = node.read().unwrap();
+            let is_entered = node.epsilon.iter().chain(node.next.values().flatten()).any(|edge| edge.0.as_ptr() == begin);
+            is_entered
+        });
+        if is_entered {
+            let begin: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&self.begin)));
+            self.node.push(Arc::clone(&begin));
+            self.begin = begin;
+        }
+        let is_left = {
+            let end = self.end.read().unwrap();
+            !end.epsilon.is_empty() || !end.next.is_empty()
+        };
+        if is_left {
+            let end: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&end)));
+            self.node.push(Arc::clone(&end));
+            self.end = end;
+        }
+        self
+    }
+}
+
 impl TryFrom<Hir> for NFA {
     type Error = <NFA as TryFrom<HirKind>>::Error;
 
@@ -281,7 +310,7 @@ impl TryFrom<HirKind> for NFA {
             HirKind::Anchor(_) => Err(NFAConstructError::AnchorIsNotSupported),
             HirKind::WordBoundary(_) => Err(NFAConstructError::WordBoundaryIsNotSupported),
             HirKind::Repetition(repetition) => {
-                let mut inner = NFA::try_from(repetition.hir.into_kind())?;
+                let mut inner = NFA::try_from(repetition.hir.into_kind())?.isolate();
                 match repetition.kind {
                     RepetitionKind::ZeroOrOne => {
                         inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
-- 
2.43.0


From 2c46c529abd48ab3f55e983b9be87d8f2e5e5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:47 +0000
Subject: [PATCH 2/6] fix: minimisation could merge states whose transitions
 differ in range ends

The states were grouped in a HashMap keyed by BTreeMap<CharRange, _>, but
equality of CharRange ignores the end of the range, so depending on the hash
seed states such as those after p and q in (p[a-c]|q[a-d])* were merged.
---
 tokenizer/src/dfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/dfa.rs b/tokenizer/src/dfa.rs
index d6d87a2..e9ba47e 100644
--- a/tokenizer/src/dfa.rs
+++ b/tokenizer/src/dfa.rs
@@ -149,7 +149,8 @@ impl<'a> TokenizerDFA<'a> {
                 let mut split_group = HashMap::new();
                 for node in set {
                     let node_next = &(*node).next;
-                    let compressed_next = Self::compress_next(&group_map, node_next);
+                    // CharRange compares only the begin of the range, states must agree on the end too
+                    let compressed_next = Self::compress_next(&group_map, node_next).into_iter().map(|(range, group)| (range.range.start, range.range.end, group)).collect::<Vec<_>>();
                     split_group.entry(compressed_next).or_insert_with(HashSet::new).insert(node.reference());
                 }
                 updated |= split_group.len() > 1;
-- 
2.43.0


From 5f6f96dd4b2956542b89a51a1b82e2126990706f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 3/6] fix: report conflicts between accepting and reducing at
 the end of input

The accept action silently replaced a reduction, so ambiguous grammars such as
S -> S | a were built without a warning.
---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index dd8008f..5c0f90a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -249,7 +249,9 @@ fn calc_table<N, T, E>(state_list: HashMap<StateInterop, GotoListInterop>, start
         for item in state {
             if item.position == rules[item.rule].symbols.len() {
                 if item.rule == start_rule {
-                    action.insert(TerminalSymbol::EOI, Action::Accept);
+                    if let Some(Action::Reduce(reduce)) = action.insert(TerminalSymbol::EOI, Action::Accept) {
+                        warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [reduce, item.rule] });
+                    }
                 } else {
                     match action.get(&item.lookahead_symbol) {
                         None => {
-- 
2.43.0


From e536c58ddf2413b085ed9725df5ca32cb8c144d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:50 +0000
Subject: [PATCH 4/6] fix: error slices of errors detected at the end of input

The end of input was given index 0, so an error production entered there got the
first token as its slice, or panicked if there was none.
---
 parser/src/iter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c5f7454..069617b 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashSet, VecDeque};
 use std::error::Error;
 use std::fmt::{Display, Formatter};
-use std::ops::RangeInclusive;
+use std::ops::Range;
 
 use enum_index::EnumIndex;
 
@@ -54,7 +54,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                     symbols.push(symbol);
                 } else {
-                    buffer.push_back((TerminalSymbol::EOI, 0));
+                    buffer.push_back((TerminalSymbol::EOI, symbols.len()));
                 }
             }
             let (symbol, symbol_index) = buffer.front().unwrap();
@@ -74,7 +74,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();
                     let first_index: usize = rule_symbols
                         .iter()
-                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, RangeInclusive<usize>>, _)>| match symbol {
+                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
                             SymbolInternal::NonTerminal((_, i)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
@@ -145,7 +145,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-                                    error_head = *range.start();
+                                    error_head = range.start;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {}
                             }
@@ -160,7 +160,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         buffer.pop_front();
                     }
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
-                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..=tail), 0))));
+                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..(tail + 1).min(symbols.len())), 0))));
                         current_state = *s;
                     } else {
                         unreachable!()
-- 
2.43.0


From c670fcb650d6d2080f28857a493dbc425b818d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:51 +0000
Subject: [PATCH 5/6] fix: error recovery lost tokens when it discarded an
 empty rule

A rule reduced without tokens was recorded to begin behind the lookahead token
instead of at it, so recovery skipped tokens it should have parsed again.
---
 parser/src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 069617b..52e88f5 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -79,7 +79,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
-                        .unwrap_or(symbols.len());
+                        .unwrap_or(*symbol_index);
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
-- 
2.43.0


From f9dfbc6de4910442cf607edf38780ca928ca9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:52 +0000
Subject: [PATCH 6/6] fix: error recovery did not terminate for rules such as S
 -> error S

In the state behind an error symbol another error symbol could be shifted without
consuming a token, for ever.
---
 parser/src/iter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 52e88f5..9e722ee 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -120,12 +120,14 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                 }
                 None => {
                     let is_eoi = matches!(symbol, TerminalSymbol::EOI);
+                    // an error right behind an error symbol extends it instead of stacking another one, which would never consume a token
+                    let is_after_error = matches!(stack.last(), Some((_, SymbolInternal::Terminal((TerminalSymbol::Error(_), _)))));
                     let mut backtracked = false;
                     let tail = *symbol_index;
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
-                        if !is_eoi || !backtracked {
+                        if if backtracked { !is_eoi } else { !is_after_error } {
                             if let Some(error_rules) = parser.error_rules.get(&current_state) {
                                 if error_recovery_state.is_empty() {
                                     error_recovery_state = error_rules.clone();
-- 
2.43.0

