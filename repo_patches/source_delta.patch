From ba82820b2e5311b332312e02d2069dc9900d2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 01/11] fix: FIRST/FOLLOW computation never ended on cyclic
 rule dependencies

Each step replaced a non-terminal by that non-terminal's current set, so
rules which depend on each other in a cycle of three or more exchanged
their sets forever (e.g. A -> x B | a; B -> y C | b; C -> z A | c). Keep
non-terminals until the fixed point is reached and drop them afterwards.
---
 src/tabler.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..4149c1e 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -101,7 +101,11 @@ where
     }
 
     pub fn proc_first(&mut self) {
-        self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        let mut first = transitive(self.first.clone(), |t| self.first_step(&t));
+        for set in first.values_mut() {
+            set.retain(|t| self.grammar.is_terminal(t));
+        }
+        self.first = first;
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -111,7 +115,11 @@ where
     }
 
     pub fn proc_follow(&mut self) {
-        self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        let mut follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        for set in follow.values_mut() {
+            set.retain(|t| self.grammar.is_terminal(t));
+        }
+        self.follow = follow;
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -126,7 +134,9 @@ where
     pub fn first_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (name, firsts) in input {
-            table.insert(name.clone(), Set::new());
+            // Non-terminals are kept until the fixed point: replacing them by their current set would
+            // make rules which depend on each other exchange their sets forever
+            table.insert(name.clone(), firsts.clone());
             for first in firsts {
                 if self.grammar.is_terminal(first) {
                     table.get_mut(name).unwrap().insert(first.clone());
@@ -154,7 +164,8 @@ where
     pub fn follow_step(&self, input: &Table<T>) -> Table<T> {
         let mut table = Table::new();
         for (noterm, terms) in input {
-            table.insert(noterm.clone(), Set::new());
+            // See `first_step`
+            table.insert(noterm.clone(), terms.clone());
             for term in terms {
                 let entry = table.get_mut(noterm).unwrap();
                 if self.grammar.is_terminal(term) {
-- 
2.43.0


From d8b6108a4f6bdf2643e5f56106eb342857d51e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 02/11] fix: LALR lookaheads were lost or leaked into the wrong
 state

When a state that was already visited got new lookaheads, only the
transitions of its kernel items were followed again: lookaheads of its
closure never reached the next states (valid inputs were rejected), and a
kernel computed without the closure items could name another state, which
then got lookaheads it does not have (spurious conflicts). Follow the
transitions of the whole closure until no state changes.
---
 src/lalr.rs | 49 ++++++++-----------------------------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..5e358e9 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -117,8 +117,9 @@ where
     fn proc_closures(&mut self) {
         self.proc_closures_first_row();
         let mut idx = 0;
+        let mut updated = false;
         let syms: Vec<_> = self.table.grammar.symbols().collect();
-        'gen: while idx < self.table.states.len() {
+        while idx < self.table.states.len() {
             let row = self.table.states[idx].clone();
             for s in &syms {
                 let Some((kernel, closures)) = self.goto(&row, s) else {
@@ -126,12 +127,7 @@ where
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                        continue;
-                    };
-                    if self.table.kernels[&nk] == idx && nk != row {
-                        continue 'gen;
-                    }
+                    updated |= self.update_state(&main_kernel, kernel, closures).is_some();
                 } else {
                     self.raws.insert(raw_kernel, kernel.clone());
                     self.table.states.push(closures);
@@ -143,42 +139,13 @@ where
                 };
             }
             idx += 1;
-        }
-    }
-
-    #[must_use]
-    pub fn update_closures(
-        &mut self,
-        main: &State<T>,
-        inc: State<T>,
-        closures: State<T>,
-    ) -> Option<State<T>> {
-        let mut new_kernel = self.update_state(main, inc, closures)?;
-        let syms: Vec<_> = self.table.grammar.symbols().collect();
-        let id = self.table.kernels[&new_kernel];
-
-        'regen: loop {
-            for s in &syms {
-                let Some((kernel, closures)) = self.goto(&new_kernel, s) else {
-                    continue;
-                };
-                let raw_kernel = Self::without_look(&kernel);
-                let main_kernel = self.raws.get(&raw_kernel).cloned();
-                let Some(main_kernel) = main_kernel else {
-                    continue;
-                };
-                let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                    continue;
-                };
-                let updated_state = self.table.kernels[&nk];
-                if updated_state == id && nk != new_kernel {
-                    new_kernel = nk;
-                    continue 'regen;
-                }
+            // An already visited state may have got new lookaheads, which the states it leads to
+            // have to receive from its whole closure: repeat until nothing changes
+            if updated && idx == self.table.states.len() {
+                updated = false;
+                idx = 0;
             }
-            break;
         }
-        Some(new_kernel)
     }
 
     #[must_use]
-- 
2.43.0


From 35a24f3d7cfc9055043ea86a223b1d8cc451f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 03/11] fix: Dfa::parse panicked, since reset dropped the
 initial state

Dfa::new starts with the initial state on the stack, Dfa::reset left the
stack empty: the first reduction of every Dfa::parse underflowed.
---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From b4d6d9d3f5012f45dbd3ff767a7bac00df66c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 04/11] fix: a non-terminal in the input made the DFA loop
 without end

Dfa::trace followed the goto entry of a non-terminal found in the buffer,
which pushes a state and consumes nothing: with S -> A; A -> B A | B the
input B grew the stack until memory ran out. Report it as unexpected.
---
 src/dfa.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..93c0a85 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -152,6 +152,14 @@ where
                 .peek()
                 .map_or_else(|| &self.eof, |t| &t.ty)
                 .clone();
+            // The entries of non-terminals are only for reductions: following one for an input
+            // token would push states forever without consuming it
+            if let Some(state) = self.table.get(self.top) {
+                if let Some(Action::Goto(_)) = state.get(&symbol) {
+                    let expecteds = state.keys().cloned().collect();
+                    return Err(Error::UnexpectedToken(symbol, expecteds));
+                }
+            }
             self.travel(&symbol)?;
         }
         Ok(())
-- 
2.43.0


From 845582bc1175ca5f71fabcce967d72126f836d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 05/11] fix: a block comment ending in **/ swallowed the source
 up to the next comment

The pattern consumed `**` as a star and a non-slash, so that /* a **/ did
not end there: everything up to the next comment's end was skipped too, or
the comment was an error when there was no other.
---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 60489d5..f0ff1fa 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -83,7 +83,7 @@ pub enum Sym {
     StrLit,
 
     /// Block comment
-    #[regex(r#"/\*([^\*]|\*[^//])*\*/"#, logos::skip)]
+    #[regex(r#"/\*[^\*]*\*+([^/\*][^\*]*\*+)*/"#, logos::skip)]
     BlockComment,
 
     /// Line comment
-- 
2.43.0


From a8307f4a3df3bbb09fd6d2b0ef557aec1e5d951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 06/11] fix: a code block ending in }}% swallowed the source up
 to the next one

The pattern consumed `}}` as a brace and a non-percent, so that
-> { { x }}% did not end there: the rules up to the next code block's end
became part of it, or the lexer reported an error when there was none.
---
 wop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index f0ff1fa..caacee7 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -91,7 +91,7 @@ pub enum Sym {
     LineComment,
 
     /// Matches a entire function tail definition: arrow ("->"), return type and a expression
-    #[regex(r#"(->)([^\}]|\}[^%])*\}%"#)]
+    #[regex(r#"->[^\}]*\}+([^\}%][^\}]*\}+)*%"#)]
     CodeBlock,
 
     #[error]
-- 
2.43.0


From 39e6a1ebf14a6e4109ef3f4c0a95650fda259336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 07/11] fix: an alias absent from a production was bound as if
 it were present

set_sub_aliases turned the placeholder of an absent item (Some(false)) back
into a present one when it handled an enclosing group, so the generated
reductors bound an unrelated token. The bootstrapped reductors had the same
fault: every alias was taken as a clone, with or without the '&'.
---
 wop/src/builder.rs |  5 ++++-
 wop/src/out.rs     | 24 ++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 18b1236..f70a300 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -276,7 +276,10 @@ impl Builder {
                     .iter_mut()
                     .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                 {
-                    prod_alias.optional = Some(true);
+                    // An item which this production lacks stays absent
+                    if prod_alias.optional.is_none() {
+                        prod_alias.optional = Some(true);
+                    }
                 } else {
                     let item_alias = ItemAlias {
                         alias: **alias_name,
diff --git a/wop/src/out.rs b/wop/src/out.rs
index 324c40b..823afde 100644
--- a/wop/src/out.rs
+++ b/wop/src/out.rs
@@ -148,7 +148,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -213,7 +215,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -276,7 +280,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -341,7 +347,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -404,7 +412,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let rule = toks[1].clone();
                 let opt = Some(toks[3].clone());
-                let cl = Some(toks[5].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[5].clone());
                 {
                     Ast::RuleItem(
@@ -469,7 +479,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[4].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[4].clone());
                 {
                     Ast::RuleItem(
-- 
2.43.0


From 9c578171d91968fa5355df2bd48b1cf7251e5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 08/11] fix: the slice of a group alias ended past the group
 when it held optional items

The end was computed from the number of items written in the group, not from
the number of symbols each of its productions has.
---
 wop/src/builder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index f70a300..d1ca973 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -205,11 +205,15 @@ impl Builder {
                                 "sub-rules like {} shouldn't have a codeblock",
                                 g.item.span.from_source(src)
                             );
+                            let mut news = self.get_from_single_production(&prod, variant, src);
                             if alias.is_some() {
-                                prod.aliases.last_mut().unwrap().final_index =
-                                    Some(prod.production.len() + variant.len());
+                                // the items of the group may produce any number of symbols, so
+                                // its end depends on each production
+                                for new in &mut news {
+                                    new.aliases[prod.aliases.len() - 1].final_index =
+                                        Some(new.production.len());
+                                }
                             }
-                            let news = self.get_from_single_production(&prod, variant, src);
                             prods.extend(news);
                         }
                         self.set_sub_aliases(&prod, &mut prods, src);
-- 
2.43.0


From e50ce32e63084b41edd474c027b75cb5d71d8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 09/11] fix: the placeholder of an absent alias had another
 type than the alias

An absent group alias was bound as a single token, and an absent sub-alias
always as a reference, so the generated reductors did not compile when the
code block used the alias by its type.
---
 wop/src/builder.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index d1ca973..8e9f100 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -74,9 +74,10 @@ impl ItemAlias {
             // aren't a real type declaration inside this struct, we bind the type from `toks[0]`
             // and set to `None`. Also, it needs to be shadowed to prevent mutations.
             Some(false) => {
+                let index = self.final_index.map_or("0", |_| "0..0");
                 writeln!(
                     out,
-                    "let mut {alias} = Some({prefix}0{suffix}); {alias} = None; let {alias} = {alias};"
+                    "let mut {alias} = Some({prefix}{index}{suffix}); {alias} = None; let {alias} = {alias};"
                 )
             }
             None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
@@ -220,7 +221,9 @@ impl Builder {
                         if is_optional {
                             let mut ignored_prod = prod.clone();
                             if alias.is_some() {
-                                ignored_prod.aliases.last_mut().unwrap().optional = Some(false);
+                                let ignored_alias = ignored_prod.aliases.last_mut().unwrap();
+                                ignored_alias.optional = Some(false);
+                                ignored_alias.final_index = Some(ignored_alias.index);
                             }
                             // after`self.set_sub_aliases` all prods follow the expression
                             // `prods[x].aliases.len() = prods[x + 1].aliases.len()`
@@ -230,8 +233,8 @@ impl Builder {
                                         alias: alias.alias,
                                         optional: Some(false),
                                         index: 0,
-                                        final_index: None,
-                                        clone,
+                                        final_index: alias.final_index,
+                                        clone: alias.clone,
                                     };
                                     ignored_prod.aliases.push(item_alias);
                                 }
@@ -267,14 +270,14 @@ impl Builder {
     /// in another.
     pub fn set_sub_aliases(&self, base: &ProductionBuild, productions: &mut RuleBuild, src: &str) {
         let base_aliases: HashSet<_> = base.aliases.iter().map(|a| a.alias).collect();
-        let prods_aliases: HashSet<_> = productions
+        let prods_aliases: HashMap<_, _> = productions
             .iter()
             .flat_map(|a| a.aliases.iter())
-            .map(|a| a.alias)
+            .filter(|a| !base_aliases.contains(&a.alias))
+            .map(|a| (a.alias, (a.final_index, a.clone)))
             .collect();
-        let prods_aliases: HashSet<_> = prods_aliases.difference(&base_aliases).collect();
         for prod in productions.iter_mut() {
-            for alias_name in &prods_aliases {
+            for (alias_name, (final_index, clone)) in &prods_aliases {
                 if let Some(prod_alias) = prod
                     .aliases
                     .iter_mut()
@@ -286,12 +289,12 @@ impl Builder {
                     }
                 } else {
                     let item_alias = ItemAlias {
-                        alias: **alias_name,
+                        alias: *alias_name,
                         optional: Some(false),
                         index: 0,
-                        // FIXME: Will it ALWAYS be nothing?
-                        final_index: None,
-                        clone: false,
+                        // only its kind (an item or a slice) matters, as for `clone`
+                        final_index: *final_index,
+                        clone: *clone,
                     };
                     prod.aliases.push(item_alias);
                 }
-- 
2.43.0


From 4f667fb3ae40bd1101309531869d036d7d3b4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 10/11] fix: reductors of a rule named by a path did not
 compile

A rule may be named Sym::Expr, but the name was used as it is in the names of
the generated functions.
---
 wop/src/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 8e9f100..83d2374 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -380,6 +380,8 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
+        // the name of a rule is a path (`Sym::Expr`), the one of a function can't be
+        let fn_name = name.replace(|c: char| !c.is_alphanumeric(), "_");
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
@@ -387,14 +389,14 @@ impl Builder {
             }
             writeln!(
                     out,
-                    "\tfn lrp_wop_{name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
+                    "\tfn lrp_wop_{fn_name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
                     prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()
                 )
                 .unwrap();
         }
         write!(out, "\tmap.insert({name}, vec![").unwrap();
         for (i, _) in prods.iter().enumerate() {
-            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
+            write!(out, "lrp_wop_{fn_name}_{i}, ").unwrap();
         }
         out.push_str("\t]);\n\n");
     }
-- 
2.43.0


From 03eeab2dd9eaefaacb5e8062e083af61204afcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:32 +0000
Subject: [PATCH 11/11] fix: rules whose names differ in more than letters have
 functions of their own

---
 wop/src/builder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 83d2374..9be6a17 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -372,6 +372,20 @@ impl Builder {
         out
     }
 
+    /// The name of a rule is a path (`Sym::Expr`), the one of a function can't be. Different rules
+    /// have different function names, even `Sym::Expr` and `Sym_Expr`.
+    fn function_name(rule: &str) -> String {
+        let mut out = String::new();
+        for c in rule.chars() {
+            match c {
+                '_' => out.push_str("__"),
+                c if c.is_ascii_alphanumeric() => out.push(c),
+                c => write!(out, "_{:x}_", c as u32).unwrap(),
+            }
+        }
+        out
+    }
+
     pub fn write_rule_reduction(
         out: &mut String,
         entry_type: &str,
@@ -380,8 +394,7 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
-        // the name of a rule is a path (`Sym::Expr`), the one of a function can't be
-        let fn_name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+        let fn_name = Self::function_name(name);
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
-- 
2.43.0

