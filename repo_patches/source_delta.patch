From 0ae1fc03790d04c5252870b01e65370094cc7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 01/14] fix: Dfa::reset keeps the initial state on the stack

Without it every reduction after a reset (so every Dfa::parse) underflows
the state stack and panics.
---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From f0dbe2f29091471a12174265e828c96a617fc2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 02/14] fix: Dfa::accept finishes only when the buffer is
 consumed

An IncompleteExec left the machine marked as finished, so calling start
again on it reported success for an input that had just been rejected.
---
 src/dfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..7c54a58 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -128,8 +128,8 @@ where
     /// # Errors
     /// When finished parse without consume entire buffer, raises an `Error::IncompleteExec`
     pub fn accept(&mut self) -> BaseResult<(), Error<M>> {
-        self.finished = true;
         if self.buffer.peek().is_none() {
+            self.finished = true;
             Ok(())
         } else {
             Err(Error::IncompleteExec)
-- 
2.43.0


From 235344e8a418cc06180f5d95d0bf9a75d9fe39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 03/14] fix: Error::UnexpectedToken lists only tokens

The expected list was built from every key of the state's row, including
the non-terminals of its gotos, which can never be the next token.
---
 src/dfa.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index 7c54a58..650fff2 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -172,7 +172,12 @@ where
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
         let action = state.get(symbol).ok_or_else(|| {
-            let expecteds = state.keys().cloned().collect();
+            // Goto entries are keyed by non-terminals, which no input contains
+            let expecteds = state
+                .iter()
+                .filter(|(_, act)| !matches!(act, Action::Goto(_)))
+                .map(|(sym, _)| sym.clone())
+                .collect();
             Error::UnexpectedToken(symbol.clone(), expecteds)
         })?;
         match action {
-- 
2.43.0


From 21be2e40e65076001d8f9171c7030336aab79b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 04/14] fix: FIRST and FOLLOW end on cyclic dependencies

The steps replaced each non-terminal of a set by that non-terminal's set, so
three or more rules that start (or end) with each other in a cycle kept
swapping their sets and Tabler::new never returned. The steps now only grow
the sets; the non-terminals are removed once nothing grows any more.
---
 src/tabler.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..f1d584f 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -101,7 +101,7 @@ where
     }
 
     pub fn proc_first(&mut self) {
-        self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        self.first = self.terminals_of(transitive(self.first.clone(), |t| self.first_step(&t)));
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -111,7 +111,7 @@ where
     }
 
     pub fn proc_follow(&mut self) {
-        self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        self.follow = self.terminals_of(transitive(self.follow.clone(), |t| self.follow_step(&t)));
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -120,17 +120,24 @@ where
             .all(|t| self.grammar.is_terminal(t)));
     }
 
+    /// Removes the non-terminals from every set of a FIRST or FOLLOW table.
+    fn terminals_of(&self, mut table: Table<T>) -> Table<T> {
+        for set in table.values_mut() {
+            set.retain(|t| self.grammar.is_terminal(t));
+        }
+        table
+    }
+
     /// # Panics
     /// Never.
     #[must_use]
     pub fn first_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (name, firsts) in input {
-            table.insert(name.clone(), Set::new());
+            // Keeps the non-terminals: dropping them would make cycles swap their sets forever
+            table.insert(name.clone(), firsts.clone());
             for first in firsts {
-                if self.grammar.is_terminal(first) {
-                    table.get_mut(name).unwrap().insert(first.clone());
-                } else {
+                if !self.grammar.is_terminal(first) {
                     table.get_mut(name).unwrap().extend(
                         input
                             .get(first)
@@ -141,9 +148,6 @@ where
                     );
                 }
             }
-            if table[name].contains(name) {
-                table.get_mut(name).unwrap().remove(name);
-            }
         }
         table
     }
@@ -154,18 +158,16 @@ where
     pub fn follow_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (noterm, terms) in input {
-            table.insert(noterm.clone(), Set::new());
+            // Keeps the non-terminals: dropping them would make cycles swap their sets forever
+            table.insert(noterm.clone(), terms.clone());
             for term in terms {
                 let entry = table.get_mut(noterm).unwrap();
-                if self.grammar.is_terminal(term) {
-                    entry.insert(term.clone());
-                } else if let Some(set) = input.get(term) {
-                    entry.extend(set.clone());
+                if !self.grammar.is_terminal(term) {
+                    if let Some(set) = input.get(term) {
+                        entry.extend(set.clone());
+                    }
                 }
             }
-            if table[noterm].contains(noterm) {
-                table.get_mut(noterm).unwrap().remove(noterm);
-            }
         }
         table
     }
-- 
2.43.0


From 5a22095d06ecf86b12078bb7f5e5c698807aa21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 05/14] fix: a token named like a non-terminal is an unexpected
 token

Dfa::travel followed the goto of such a token without consuming it, leaving a
state without an item: the machine then looped for ever, panicked on the next
reduction or accepted an input that isn't in the language.
---
 src/dfa.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dfa.rs b/src/dfa.rs
index 650fff2..5d1a59a 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -171,7 +171,7 @@ where
     /// Returns the action result
     pub fn travel(&mut self, symbol: &M) -> BaseResult<(), Error<M>> {
         let state = self.table.get(self.top).ok_or(Error::StateNotSpecified)?;
-        let action = state.get(symbol).ok_or_else(|| {
+        let unexpected = || {
             // Goto entries are keyed by non-terminals, which no input contains
             let expecteds = state
                 .iter()
@@ -179,10 +179,12 @@ where
                 .map(|(sym, _)| sym.clone())
                 .collect();
             Error::UnexpectedToken(symbol.clone(), expecteds)
-        })?;
-        match action {
+        };
+        match state.get(symbol).ok_or_else(unexpected)? {
             Action::Shift(to) => self.shift(*to),
-            Action::Goto(to) => self.goto(*to),
+            // Only a reduction goes to a non-terminal: a token named like one isn't a symbol of
+            // the language, and going to it wouldn't consume it
+            Action::Goto(_) => Err(unexpected()),
             Action::Reduce(name, prod) => self.reduce(&name.clone(), &prod.clone()),
             Action::Acc => self.accept(),
             Action::Conflict(a, b) => Err(Error::Conflict(*a.clone(), *b.clone())),
@@ -213,7 +215,10 @@ where
         self.top = self.states[len - prod.0.len() - 1];
 
         self.states.truncate(len - prod.0.len());
-        self.travel(name)
+        match self.table.get(self.top).and_then(|state| state.get(name)) {
+            Some(Action::Goto(to)) => self.goto(*to),
+            _ => Err(Error::StateNotSpecified),
+        }
     }
 
     pub fn reset(&mut self) {
-- 
2.43.0


From 195ba7775ab1ec4144db500cb6c2884f5492be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 06/14] fix: LALR lookaheads reach states through updated
 closures

When merging a kernel changed a state that had already been visited, the new
lookaheads of its closure items were not propagated to the states they lead
to, so sentences of LALR(1) grammars were rejected. The states are visited
again until no merge changes one.
---
 src/lalr.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..c869401 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -117,8 +117,14 @@ where
     fn proc_closures(&mut self) {
         self.proc_closures_first_row();
         let mut idx = 0;
+        let mut updated = false;
         let syms: Vec<_> = self.table.grammar.symbols().collect();
-        'gen: while idx < self.table.states.len() {
+        'gen: while idx < self.table.states.len() || updated {
+            // The closures of a state updated after its visit have lookaheads to propagate too
+            if idx == self.table.states.len() {
+                idx = 0;
+                updated = false;
+            }
             let row = self.table.states[idx].clone();
             for s in &syms {
                 let Some((kernel, closures)) = self.goto(&row, s) else {
@@ -129,6 +135,7 @@ where
                     let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
                         continue;
                     };
+                    updated = true;
                     if self.table.kernels[&nk] == idx && nk != row {
                         continue 'gen;
                     }
-- 
2.43.0


From 0679f315645cb6da8f963a83abe9b671ab188e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 07/14] fix: the demo ends with its input

read_line returns 0 at the end of stdin, which the loop took for an empty
line, printing the same table for ever.
---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ba4743a..76eaad3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,9 @@ fn main() {
         io::stdout().flush().unwrap();
 
         let mut input = String::new();
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            break;
+        }
 
         #[allow(clippy::needless_collect)]
         let input: Vec<_> = input.trim().chars().map(|c| c.to_string()).collect();
-- 
2.43.0


From a02c37f2cee28258dbe9dc03d7f60c7c23f6dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 08/14] fix: wop reports a failure to write the end of its
 output

The BufWriter was dropped without a flush, which discards the error: on a full
disk wop exited successfully with a truncated out.rs.
---
 wop/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 0d58c0c..1b3167f 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -65,6 +65,7 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         wop::builder::REDUCTOR_LINTS,
         builder.dump_reductor(&file),
     )?;
+    writer.flush()?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
     res
 }
-- 
2.43.0


From c3f85dcc49a51c5c79155dc71b16ddcbe83ea86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 09/14] fix: wop leaves out.rs alone when the source doesn't
 parse

After a syntax error it went on to overwrite out.rs with the declarations
parsed so far, and only then reported the failure.
---
 wop/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 1b3167f..359f6c0 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -18,7 +18,7 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 
     let mut dfa = wop::build_parser(lexer);
 
-    let res = match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
+    let res: Result<(), Box<dyn std::error::Error>> = match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
         Err(e) => {
             println!("FATAL: {e}");
             println!("source:");
@@ -31,6 +31,7 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
     };
     println!("PARSING OUTPUT:");
     print_nested(&dfa.items[0], "", 0, &file);
+    res?;
 
     println!("BUILDING OUTPUT");
     let mut builder = Builder::new("Gramem".to_string());
@@ -67,7 +68,7 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
     )?;
     writer.flush()?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
-    res
+    Ok(())
 }
 
 const TAB_C: &str = "  ";
-- 
2.43.0


From a44cdc67bf13ac4efe5ddcb05d6f5db84c6619ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 10/14] fix: wop binds absent aliases of a group to None, in
 their own type

In a group an alias that its alternative leaves out was bound to the symbol at
its place, (":" "&"?:cl Ident:id)? gave cl the Ident when there was no "&".
And where it was None, it was an Option of a reference even if declared with &,
or of one symbol even if the alias names a group (toks[0].to_vec() doesn't
compile).
---
 wop/src/builder.rs | 51 +++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 18b1236..3f8ee59 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -1,9 +1,5 @@
 use crate::{Ast, Gramem, RulePipe, Sym};
-use std::{
-    collections::{HashMap, HashSet},
-    fmt::Write,
-    str::FromStr,
-};
+use std::{collections::HashMap, fmt::Write, str::FromStr};
 
 pub type SrcRef = lrp::Span;
 
@@ -74,9 +70,10 @@ impl ItemAlias {
             // aren't a real type declaration inside this struct, we bind the type from `toks[0]`
             // and set to `None`. Also, it needs to be shadowed to prevent mutations.
             Some(false) => {
+                let nothing = self.final_index.map_or("0", |_| "0..0");
                 writeln!(
                     out,
-                    "let mut {alias} = Some({prefix}0{suffix}); {alias} = None; let {alias} = {alias};"
+                    "let mut {alias} = Some({prefix}{nothing}{suffix}); {alias} = None; let {alias} = {alias};"
                 )
             }
             None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
@@ -223,11 +220,8 @@ impl Builder {
                             for alias in &prods[0].aliases {
                                 if !ignored_prod.aliases.iter().any(|a| a.alias == alias.alias) {
                                     let item_alias = ItemAlias {
-                                        alias: alias.alias,
                                         optional: Some(false),
-                                        index: 0,
-                                        final_index: None,
-                                        clone,
+                                        ..alias.clone()
                                     };
                                     ignored_prod.aliases.push(item_alias);
                                 }
@@ -262,31 +256,28 @@ impl Builder {
     /// in `base`. Also, adds a `None` alias for the productions that doesn't have a alias defined
     /// in another.
     pub fn set_sub_aliases(&self, base: &ProductionBuild, productions: &mut RuleBuild, src: &str) {
-        let base_aliases: HashSet<_> = base.aliases.iter().map(|a| a.alias).collect();
-        let prods_aliases: HashSet<_> = productions
-            .iter()
-            .flat_map(|a| a.aliases.iter())
-            .map(|a| a.alias)
-            .collect();
-        let prods_aliases: HashSet<_> = prods_aliases.difference(&base_aliases).collect();
+        let inner = base.aliases.len();
+        let mut sub_aliases: Vec<ItemAlias> = Vec::new();
+        for alias in productions.iter().flat_map(|p| &p.aliases[inner..]) {
+            let name = alias.alias.from_source(src);
+            if !sub_aliases.iter().any(|a| a.alias.from_source(src) == name) {
+                sub_aliases.push(alias.clone());
+            }
+        }
         for prod in productions.iter_mut() {
-            for alias_name in &prods_aliases {
-                if let Some(prod_alias) = prod
-                    .aliases
+            for alias in &sub_aliases {
+                let name = alias.alias.from_source(src);
+                if let Some(prod_alias) = prod.aliases[inner..]
                     .iter_mut()
-                    .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
+                    .find(|a| a.alias.from_source(src) == name)
                 {
-                    prod_alias.optional = Some(true);
+                    // what is absent in this production stays absent
+                    prod_alias.optional = prod_alias.optional.or(Some(true));
                 } else {
-                    let item_alias = ItemAlias {
-                        alias: **alias_name,
+                    prod.aliases.push(ItemAlias {
                         optional: Some(false),
-                        index: 0,
-                        // FIXME: Will it ALWAYS be nothing?
-                        final_index: None,
-                        clone: false,
-                    };
-                    prod.aliases.push(item_alias);
+                        ..alias.clone()
+                    });
                 }
             }
         }
-- 
2.43.0


From e378cae4e152f2f3d941e9370e46d084d8c56a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:10 +0000
Subject: [PATCH 11/14] fix: an alias of a group holds all symbols the group
 stands for

The range was as long as the alternative has items, but items that are groups
or optional stand for more or fewer symbols: ((A B) C):x held A and B only, and
in (A B?):x without B the slice was past the end of the production or held the
symbol after the group.
---
 wop/src/builder.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 3f8ee59..03ec241 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -202,18 +202,22 @@ impl Builder {
                                 "sub-rules like {} shouldn't have a codeblock",
                                 g.item.span.from_source(src)
                             );
+                            let mut news = self.get_from_single_production(&prod, variant, src);
                             if alias.is_some() {
-                                prod.aliases.last_mut().unwrap().final_index =
-                                    Some(prod.production.len() + variant.len());
+                                for new in &mut news {
+                                    new.aliases[prod.aliases.len() - 1].final_index =
+                                        Some(new.production.len());
+                                }
                             }
-                            let news = self.get_from_single_production(&prod, variant, src);
                             prods.extend(news);
                         }
                         self.set_sub_aliases(&prod, &mut prods, src);
                         if is_optional {
                             let mut ignored_prod = prod.clone();
                             if alias.is_some() {
-                                ignored_prod.aliases.last_mut().unwrap().optional = Some(false);
+                                let item_alias = ignored_prod.aliases.last_mut().unwrap();
+                                item_alias.optional = Some(false);
+                                item_alias.final_index = Some(item_alias.index);
                             }
                             // after`self.set_sub_aliases` all prods follow the expression
                             // `prods[x].aliases.len() = prods[x + 1].aliases.len()`
-- 
2.43.0


From 57da0415183b741ec0ca5ef403bbe602ced437e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:41 +0000
Subject: [PATCH 12/14] fix: wop tells X:a from X:&a

The bootstrapped RuleItem callbacks had the same fault (cl was the Ident when
there was no "&"), so that every alias was taken for one with &.
---
 wop/src/out.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/wop/src/out.rs b/wop/src/out.rs
index 324c40b..da6b8e1 100644
--- a/wop/src/out.rs
+++ b/wop/src/out.rs
@@ -148,7 +148,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -213,7 +215,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -276,7 +280,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -341,7 +347,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -404,7 +412,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let rule = toks[1].clone();
                 let opt = Some(toks[3].clone());
-                let cl = Some(toks[5].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[5].clone());
                 {
                     Ast::RuleItem(
@@ -469,7 +479,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[4].clone());
+                let mut cl = Some(toks[0].clone());
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[4].clone());
                 {
                     Ast::RuleItem(
-- 
2.43.0


From 51549f43e9f3c6ffd3457c30df5c3c75c7be9826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:31 +0000
Subject: [PATCH 13/14] fix: LALR lookaheads go to the states whole closures
 lead to

update_closures went on from the kernel of an updated state alone. What a kernel alone
leads to can have the kernel of an unrelated state, which then got lookaheads that
aren't its own. The loop of proc_closures propagates the updates from whole closures.
---
 src/lalr.rs | 37 +------------------------------------
 1 file changed, 1 insertion(+), 36 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index c869401..b16747b 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -132,7 +132,7 @@ where
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
+                    let Some(nk) = self.update_state(&main_kernel, kernel, closures) else {
                         continue;
                     };
                     updated = true;
@@ -153,41 +153,6 @@ where
         }
     }
 
-    #[must_use]
-    pub fn update_closures(
-        &mut self,
-        main: &State<T>,
-        inc: State<T>,
-        closures: State<T>,
-    ) -> Option<State<T>> {
-        let mut new_kernel = self.update_state(main, inc, closures)?;
-        let syms: Vec<_> = self.table.grammar.symbols().collect();
-        let id = self.table.kernels[&new_kernel];
-
-        'regen: loop {
-            for s in &syms {
-                let Some((kernel, closures)) = self.goto(&new_kernel, s) else {
-                    continue;
-                };
-                let raw_kernel = Self::without_look(&kernel);
-                let main_kernel = self.raws.get(&raw_kernel).cloned();
-                let Some(main_kernel) = main_kernel else {
-                    continue;
-                };
-                let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                    continue;
-                };
-                let updated_state = self.table.kernels[&nk];
-                if updated_state == id && nk != new_kernel {
-                    new_kernel = nk;
-                    continue 'regen;
-                }
-            }
-            break;
-        }
-        Some(new_kernel)
-    }
-
     #[must_use]
     pub fn update_state(
         &mut self,
-- 
2.43.0


From 9742976a4276e088ea61d160760c7b39fabc32b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 14/14] fix: wop names the callbacks of a rule declared by a
 path by something that is a name

---
 wop/src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 03ec241..d65cd87 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -365,6 +365,9 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
+        // a rule can be declared by a path, which isn't a name for a function
+        let rule = name;
+        let name = rule.replace(|c: char| !c.is_alphanumeric() && c != '_', "_");
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
@@ -377,7 +380,7 @@ impl Builder {
                 )
                 .unwrap();
         }
-        write!(out, "\tmap.insert({name}, vec![").unwrap();
+        write!(out, "\tmap.insert({rule}, vec![").unwrap();
         for (i, _) in prods.iter().enumerate() {
             write!(out, "lrp_wop_{name}_{i}, ").unwrap();
         }
-- 
2.43.0

