From 1e56d8ebb40434d4b31e91fe3ad118da17dad763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 01/20] fix: make the tree module public so VM can be
 implemented outside the crate

VM::execute_instruction takes Tree and NodeId, which were unnameable outside the crate.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From 54b7c7ee6f2f9daf645da5925049e5838c236779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 02/20] fix: tree: look removed nodes up by slot index, not by
 pk

get_node and node_exists compared the pk with the list of free slots, so live nodes could be
reported as removed and removed nodes were still returned.
---
 src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..fee599c 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -196,7 +196,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +222,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
-- 
2.43.0


From 0332728861f454e408a88f1ea235784a00c39f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 03/20] fix: tree: remove_branch put the removed slot on the
 free list twice

Two later add_node calls were then given the same slot.
---
 src/tree.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index fee599c..d380a64 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -241,7 +241,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From 6dd5c402a253fc00257cf91b7233b952adc74a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 04/20] fix: tree: add_node took a free slot before it checked
 the parent

With an invalid parent the slot was lost and the removed node in it became reachable again.
---
 src/tree.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d380a64..18abc96 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,11 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        if let Some(parent_id) = parent {
+            if !self.node_exists(parent_id) {
+                return Err(NodeDoesNotExist { node_id: parent_id });
+            }
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +99,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-- 
2.43.0


From 8b3cd78c6c08c73005895421cb92beae38b3ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 05/20] fix: tree: get_children answered for removed nodes and
 panicked on foreign ids

---
 src/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 18abc96..016462f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -141,7 +141,9 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
-        let node = &self.nodes[node_id.node_ptr];
+        let Ok(node) = self.get_node(node_id) else {
+            return children;
+        };
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
             let cur_children = &self.nodes[child_index];
-- 
2.43.0


From 9025c0ae79b379a38e5ab17b60b5fa3d2329c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 06/20] fix: ParseProcess: peeking changed the escape state

A peek followed by next saw an escaped stop character twice: the first look used up the escape,
so the view ended early. The escape state now changes only when a character is consumed. A stop
character is also honoured without an escape character, and peek_mut no longer looks past it.
---
 src/peekables.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..278edd1 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -135,8 +135,8 @@ where
             return None;
         }
         let res = self.to_parse.next();
-        if res.is_some() {
-            self.current_position += 1
+        if let Some(c) = res {
+            self.consumed(c);
         }
         res
     }
@@ -154,6 +154,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
@@ -161,8 +164,8 @@ where
             return None;
         }
         let res = self.to_parse.next_if(func);
-        if res.is_some() {
-            self.current_position += 1
+        if let Some(c) = res {
+            self.consumed(c);
         }
         res
     }
@@ -172,8 +175,8 @@ where
             return None;
         }
         let res = self.to_parse.next_if_eq(expected);
-        if res.is_some() {
-            self.current_position += 1
+        if let Some(c) = res {
+            self.consumed(c);
         }
         res
     }
@@ -185,18 +188,17 @@ where
 {
     fn check_allowed(&mut self) -> bool {
         let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
+        if let (Some(&c), Some(stop_char)) = (next, self.stop_on) {
+            if c == stop_char && Some(c) != self.escape_char && !self.escape {
                 return false;
-            } else {
-                self.escape = false;
             }
         }
         true
     }
+
+    fn consumed(&mut self, c: char) {
+        self.current_position += 1;
+        self.escape = Some(c) == self.escape_char;
+    }
 }
 
-- 
2.43.0


From c80d218a804611cacd2e01ea3e82fd5d914a7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 07/20] fix: Parser::parse accepted scripts with text left over
 after the start rule

---
 src/script_parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..eff35c2 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -214,6 +214,13 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        if let Some(&chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos: to_parse.cur_pos(),
+                expected: String::from("end of input"),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From a395a5501663f60959a4f849e9a33bc3b09718ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 08/20] fix: Parser reported a made-up '#' character at the end
 of the script

---
 src/script_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index eff35c2..7cd3f2c 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -235,10 +235,11 @@ where
             .get(&el_index)
             .ok_or(MissingProduction { index: el_index })?;
         let fitting_production: Option<&Rc<Production>> = nt_rule.steuermap.get(cur);
+        let pos = to_parse.cur_pos();
         match fitting_production {
             None => Err(UnexpectedCharError {
-                chr: *to_parse.peek().unwrap_or(&'#'),
-                pos: to_parse.cur_pos(),
+                chr: *to_parse.peek().ok_or(EndOfCharsError { pos })?,
+                pos,
                 expected: nt_rule
                     .steuermap
                     .keys()
-- 
2.43.0


From 3a3c42dbdeb9990fb7b43ed35ef09541491b4787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 09/20] fix: the expected characters of a parse error came in
 hash map order

---
 src/script_parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 7cd3f2c..743ef68 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -240,13 +240,16 @@ where
             None => Err(UnexpectedCharError {
                 chr: *to_parse.peek().ok_or(EndOfCharsError { pos })?,
                 pos,
-                expected: nt_rule
-                    .steuermap
-                    .keys()
-                    .cloned()
-                    .map(|x| x.into())
-                    .collect::<Vec<String>>()
-                    .join(";"),
+                expected: {
+                    let mut expected = nt_rule
+                        .steuermap
+                        .keys()
+                        .cloned()
+                        .map(|x| x.into())
+                        .collect::<Vec<String>>();
+                    expected.sort();
+                    expected.join(";")
+                },
             }),
             Some(fp) => Ok(fp),
         }
-- 
2.43.0


From a3c5d04b546c24b66931d5b3cd0ca60cfe994207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 10/20] fix: Parser::parse dropped tree errors and panicked on
 unknown element indexes

---
 src/script_parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 743ef68..4bbda80 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -11,7 +11,7 @@ use crate::parser_data::{ElementIndex, ElementType, ElementVerbose, ParserData,
 use crate::tree::{NodeId, Tree};
 use crate::vms::VM;
 
-use crate::errors::GrammarError::MissingProduction;
+use crate::errors::GrammarError::{MissingElementForIndex, MissingProduction};
 use crate::errors::ParserError;
 use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError};
 use crate::first_sets::get_first_sets;
@@ -276,14 +276,20 @@ where
         match prod {
             Production::NotEmpty(prod_not_empty) => {
                 for next_element_index in prod_not_empty {
-                    let element_next = self.elements.get(*next_element_index).unwrap().clone();
+                    let element_next = self
+                        .elements
+                        .get(*next_element_index)
+                        .ok_or(MissingElementForIndex {
+                            index: *next_element_index,
+                        })?
+                        .clone();
 
                     match element_next.et {
                         ElementType::Terminal => {
-                            let _ = tree.add_node(
+                            tree.add_node(
                                 self.parse_terminal(to_parse, element_next.name.as_str())?,
                                 Some(id),
-                            );
+                            )?;
                         }
                         ElementType::NonTerminal => {
                             self.parse_production(
-- 
2.43.0


From dddc8eddccd02f384e0982ccbee21f0ec25dd213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 11/20] fix: Parser ignored the start_idx given to
 new_from_parser_data

parse always began with the element named "start" and panicked when there was none.
---
 src/script_parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 4bbda80..24d6c07 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -60,6 +60,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// Index of the starting non-terminal; the non-terminal "start" if there is none
+    start_index: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -113,6 +115,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -141,7 +144,8 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_index = Some(start_idx);
         parser
     }
 
@@ -167,6 +171,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -205,12 +210,15 @@ where
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
         let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+            .start_index
+            .or_else(|| {
+                self.elements.iter().position(|r| {
+                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+                })
             })
-            .unwrap();
+            .ok_or_else(|| ParserError::InternalError {
+                message: String::from("there is no start element"),
+            })?;
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
-- 
2.43.0


From 3406a02ff28bf9014141fc93fd142315eef1c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 12/20] fix: CountingVm left the instruction section unread

VM::parse_instructions must consume it; every rule with text in its braces was rejected.
---
 src/vms/counting_vm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 2e3dbf5..5866cc5 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -19,11 +19,12 @@ impl VM for CountingVm {
     fn parse_instructions<T>(
         &self,
         _prod_name: &str,
-        _to_parse: &mut ParseProcess<T>,
+        to_parse: &mut ParseProcess<T>,
     ) -> Result<Vec<Self::Tinstrution>, ParserError>
     where
         T: TPeekable<Item = char>,
     {
+        while to_parse.next().is_some() {}
         Ok(vec![0])
     }
 
-- 
2.43.0


From 9aebe2a72ab45a32a623bfd243d8f9f95b044126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 13/20] fix: StackVm wrapped constants above isize::MAX to
 negative numbers

---
 src/vms/stack_vm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..4b862e5 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -4,7 +4,7 @@ use crate::peekables::{ParseProcess, TPeekable};
 use crate::tree::{NodeId, Tree};
 use crate::vms::VM;
 
-use crate::parse_funcs::{parse_symbol, parse_usize};
+use crate::parse_funcs::{parse_isize, parse_symbol, parse_usize};
 
 pub enum Instruction {
     Add,
@@ -56,8 +56,8 @@ impl VM for StackVm {
                 "Add" => instructions.push(Instruction::Add),
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    let val = parse_isize(to_parse)?;
+                    instructions.push(Instruction::RegAddConst(val));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -66,8 +66,8 @@ impl VM for StackVm {
                 "PopDiscard" => instructions.push(Instruction::PopDiscard),
                 "PushConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    let val = parse_isize(to_parse)?;
+                    instructions.push(Instruction::PushConst(val));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
-- 
2.43.0


From 5d7b8937e77911ce6277f7df836b2fac077959cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 14/20] fix: the stack VMs panicked or wrapped on arithmetic
 overflow

Scripts control the operands, so a script could abort the host program. Overflow now sets
state.error like the other runtime errors do.
---
 src/vms/simple_stack_vm.rs | 32 +++++++++++++++++++++++++-------
 src/vms/stack_vm.rs        | 33 ++++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..e3a7c64 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -74,16 +74,22 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    if let Some(res) = state.reg.checked_add(var) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Overflow
+                    }
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    if let Some(res) = var.checked_sub(state.reg) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Overflow
+                    }
                 } else {
                     state.error = 1
                 }
@@ -143,8 +149,16 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exp| base.checked_pow(exp))
+                        .and_then(|pow| val.checked_mul(pow))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    if let Some(res) = res {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Overflow
+                    }
                 } else {
                     state.error = 1
                 }
@@ -152,7 +166,11 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Overflow
+                }
             }
         }
     }
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 4b862e5..6baff56 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -98,16 +98,22 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    if let Some(res) = state.reg.checked_add(var) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Overflow
+                    }
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    if let Some(res) = var.checked_sub(state.reg) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Overflow
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +173,17 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exp| base.checked_pow(exp))
+                        .and_then(|pow| isize::try_from(pow).ok())
+                        .and_then(|pow| val.checked_mul(pow))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    if let Some(res) = res {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Overflow
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +191,11 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Overflow
+                }
             }
         }
     }
-- 
2.43.0


From c94515ae4ec85dee1e7664b24705d65e498a144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 15/20] fix: named_graph: index lookup in an empty graph
 underflowed

---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From 9a624b6cad52dea637fe47c2c7444b4abe36694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 16/20] fix: left recursive grammars overflowed the stack in
 get_first_sets

---
 src/errors.rs        |  6 ++++++
 src/first_sets.rs    | 22 +++++++++++++++++-----
 src/script_parser.rs |  2 --
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..aaffdcd 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -113,6 +113,9 @@ pub enum GrammarError {
     GraphIndexOutOfBounds {
         index: usize,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
 }
 
 impl std::error::Error for GrammarError {}
@@ -146,6 +149,9 @@ impl fmt::Display for GrammarError {
             GrammarError::GraphIndexOutOfBounds { .. } => {
                 write!(f, "graph node index out of bounds")
             }
+            GrammarError::LeftRecursion { index } => {
+                write!(f, " \"{index}\" is left recursive")
+            }
         }
     }
 }
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..ef6bf48 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -47,7 +47,7 @@ where
 {
     let mut first_sets: NamedSets = HashMap::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, &mut HashSet::new(), parser_data)?;
     }
     Ok(first_sets)
 }
@@ -55,6 +55,7 @@ where
 fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -67,10 +68,15 @@ where
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
+            if !in_progress.insert(el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus =
+                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
                 set.extend(&rus);
             }
+            in_progress.remove(&el_ix);
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -105,6 +111,7 @@ where
 fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -113,11 +120,16 @@ where
     match production {
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
-            let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+            let mut first_menge = get_set_first_set_of_element(
+                *el_ixs.first().unwrap(),
+                first_sets,
+                in_progress,
+                parser_data,
+            )?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set =
+                        get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index 24d6c07..936da02 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From bd69b603ee9b32fa77a729d65e083ecdf6fb7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 17/20] fix: control maps used FOLLOW of a production's first
 element

A production starting with a nullable non-terminal was selected on FIRST and FOLLOW of that
element instead of FIRST of the whole production (plus FOLLOW of the rule when it is nullable), so
valid LL(1) grammars were rejected as ambiguous. An empty terminal at the front panicked.
---
 src/steuer_map.rs | 64 +++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..e52232a 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -5,14 +5,14 @@
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::first_sets::first_set_of_partial;
+use crate::parser_data::{ElementIndex, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
-use crate::errors::GrammarError::{MissingFollowSet, MissingSteuerSet, SteuerSetsNotDistinct};
+use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
 use crate::parser_data::Production;
-use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember};
-use crate::steuer_sets::get_steuer_sets;
+use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
 
 /// Forgot what NT means here. NonTerminal?
 pub struct NTRules<T>
@@ -29,25 +29,23 @@ pub type Steuermap = HashMap<SetMember, Rc<Production>>;
 pub fn get_steuermaps<T>(
     first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
-    parser_data: ParserData<T>,
+    mut parser_data: ParserData<T>,
 ) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError>
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    for (rule_name, productions) in std::mem::take(&mut parser_data.parse_rules.rules) {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,43 +60,33 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
     let prod_ref = Rc::clone(&prod);
     let prod = &*prod;
     match prod {
         Production::NotEmpty(el) => {
-            let first = el[0];
-            let et = el_types
-                .get(first)
-                .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
-                    if old_key.is_some() {
-                        return Err(SteuerSetsNotDistinct {
-                            steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
-                            rule_name: cur_rule_name.to_string(),
-                        });
-                    }
-                }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
-                }
+            let first = first_set_of_partial(el, first_sets, parser_data)?;
+            let mut steuer_menge: HashSet<SetMember> = first
+                .iter()
+                .filter_map(|member| SetMember::try_from(*member).ok())
+                .collect();
+            if first.contains(&SetMemberWithEmpty::Empty) {
+                let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
+                    index: cur_rule_name,
+                })?;
+                steuer_menge.extend(follow_set);
             }
+            fill_with_steuer_set(&steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
             Ok(())
         }
         Production::Empty => {
-- 
2.43.0


From 3d1a01535982085ad1e2f10810c624db3189d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 18/20] fix: parse_rules rejected the documented $IGNORE
 directive

---
 src/rule_parsing.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..57c4406 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -55,6 +55,10 @@ where
             if self.parse_process.peek().is_none() {
                 break;
             }
+            if self.parse_symbol('$').is_ok() {
+                self.parse_directive()?;
+                continue;
+            }
             let (rule_name, rule) = self.parse_rule()?;
             self.merge_rule(rule, rule_name);
         }
@@ -62,6 +66,22 @@ where
         Ok(&self.parser_data.parse_rules)
     }
 
+    fn parse_directive(&mut self) -> Result<(), ParserError> {
+        let pos = self.parse_process.cur_pos();
+        let operation = parse_var_name(&mut self.parse_process)?;
+        if operation != "IGNORE" {
+            return Err(ParserError::UnknownSpecialOperation { operation, pos });
+        }
+        self.parse_whitespace();
+        self.parse_symbol(':')?;
+        self.parse_whitespace();
+        let name = parse_var_name(&mut self.parse_process)?;
+        self.parse_whitespace();
+        self.parse_symbol(';')?;
+        self.parser_data.parse_rules.ignore = Some(self.parser_data.get_or_add_non_terminal(&name));
+        Ok(())
+    }
+
     fn edit_rules(&mut self) -> Result<(), ParserError> {
         let mut edited_rules = RuleMap::new();
         struct Action {
-- 
2.43.0


From e9275afa81fade423d0658fa251f24eb2cd842f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 19/20] fix: refuse an override with an unknown name instead of
 ignoring it

---
 src/rule_parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 57c4406..9f0e0f4 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -216,6 +216,7 @@ where
         let mut ignore_this = self.parser_data.parse_rules.ignore.clone();
         if self.parse_symbol('$').is_ok() {
             self.parse_symbol('[')?;
+            let pos = self.parse_process.cur_pos();
             let varname = parse_var_name(&mut self.parse_process)?;
             self.parse_whitespace();
             self.parse_symbol(':')?;
@@ -231,6 +232,11 @@ where
                         ),
                     ));
                 }
+            } else {
+                return Err(ParserError::UnknownSpecialOperation {
+                    operation: varname,
+                    pos,
+                });
             }
 
             self.parse_symbol(']')?;
-- 
2.43.0


From f8d24e8c3d1f5921e34bcf736e5fab725f28e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:44 +0000
Subject: [PATCH 20/20] fix: counting machine does not panic when its counter
 is at the limit

---
 src/vms/counting_vm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 5866cc5..1d120f5 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -7,7 +7,7 @@ pub struct CountingVm {}
 
 impl CountingVm {
     pub fn increment_counter(state: &mut usize) -> Result<(), String> {
-        *state += 1;
+        *state = state.saturating_add(1);
         Ok(())
     }
 }
-- 
2.43.0

