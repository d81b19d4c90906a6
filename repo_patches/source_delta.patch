From 22019a57f71a4e86df81f836998dfc9371f53ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 1/4] fix: FIRST and FOLLOW computation never ended on rules
 that refer to each other in a cycle

Each step replaced non-terminals by their sets, so three rules starting (or ending) with each
other swapped their sets forever; some cycles also stopped with non-terminals left in the sets.
Steps now only add symbols, and the non-terminals are dropped at the end.
---
 src/tabler.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..879d794 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -101,7 +101,8 @@ where
     }
 
     pub fn proc_first(&mut self) {
-        self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        let first = transitive(self.first.clone(), |t| self.first_step(&t));
+        self.first = self.only_terminals(&first);
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -111,7 +112,8 @@ where
     }
 
     pub fn proc_follow(&mut self) {
-        self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        let follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        self.follow = self.only_terminals(&follow);
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -126,7 +128,9 @@ where
     pub fn first_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (name, firsts) in input {
-            table.insert(name.clone(), Set::new());
+            // Already expanded non-terminals are kept: a step must only add symbols, otherwise rules
+            // that start with each other would replace themselves forever.
+            table.insert(name.clone(), firsts.clone());
             for first in firsts {
                 if self.grammar.is_terminal(first) {
                     table.get_mut(name).unwrap().insert(first.clone());
@@ -154,7 +158,8 @@ where
     pub fn follow_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (noterm, terms) in input {
-            table.insert(noterm.clone(), Set::new());
+            // Same as `first_step`: a step must only add symbols.
+            table.insert(noterm.clone(), terms.clone());
             for term in terms {
                 let entry = table.get_mut(noterm).unwrap();
                 if self.grammar.is_terminal(term) {
@@ -170,6 +175,21 @@ where
         table
     }
 
+    /// Drops the non-terminals from each set of the table.
+    #[must_use]
+    fn only_terminals(&self, table: &Table<T>) -> Table<T> {
+        let mut out = Table::new();
+        for (name, syms) in table {
+            let terms = syms
+                .iter()
+                .filter(|s| self.grammar.is_terminal(s))
+                .cloned()
+                .collect();
+            out.insert(name.clone(), terms);
+        }
+        out
+    }
+
     #[must_use]
     pub fn basis_pos(&self) -> Position<T> {
         self.grammar.basis()
-- 
2.43.0


From 494f7ab98886dfd70087643ca33d9acd6ecab773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 2/4] fix: LALR lost lookaheads of states reached through
 non-kernel items

When a merge added lookaheads to an already processed state, only the states reached from its
kernel items were updated, so conflict-free grammars could reject their own sentences. The
generation now goes back to the first state that got new lookaheads.
---
 src/lalr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..39e67ee 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -118,20 +118,20 @@ where
         self.proc_closures_first_row();
         let mut idx = 0;
         let syms: Vec<_> = self.table.grammar.symbols().collect();
-        'gen: while idx < self.table.states.len() {
+        while idx < self.table.states.len() {
             let row = self.table.states[idx].clone();
+            let mut next_idx = idx + 1;
             for s in &syms {
                 let Some((kernel, closures)) = self.goto(&row, s) else {
                     continue;
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
+                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                         continue;
                     };
-                    if self.table.kernels[&nk] == idx && nk != row {
-                        continue 'gen;
-                    }
+                    // The updated state has new lookaheads: its successors must get them too.
+                    next_idx = next_idx.min(self.table.kernels[&nk]);
                 } else {
                     self.raws.insert(raw_kernel, kernel.clone());
                     self.table.states.push(closures);
@@ -142,7 +142,7 @@ where
                     debug_assert!(old.is_none());
                 };
             }
-            idx += 1;
+            idx = next_idx;
         }
     }
 
-- 
2.43.0


From e9acc8c9075c15eebad6e62bed6564669719309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 3/4] fix: a reset Dfa had no initial state, so Dfa::parse
 panicked on the first reduction

---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From 021726a775f0720bb47f9e2eb062199e08e1dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:13 +0000
Subject: [PATCH 4/4] fix: an input token named as a rule made the parser take
 gotos without end

---
 src/dfa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..8db5682 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -177,6 +177,12 @@ where
         })?;
         match action {
             Action::Shift(to) => self.shift(*to),
+            // A goto is taken after a reduction, which has just pushed its item. An input token named
+            // as a rule can't take it.
+            Action::Goto(_) if self.items.len() < self.states.len() => {
+                let expecteds = state.keys().cloned().collect();
+                Err(Error::UnexpectedToken(symbol.clone(), expecteds))
+            }
             Action::Goto(to) => self.goto(*to),
             Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
             Action::Acc => self.accept(),
-- 
2.43.0

