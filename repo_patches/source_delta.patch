From da8b3be5f3dd1d218d62885617eee2f5030ed4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 01/47] fix: Return zero from DOUBLE functions without an
 explicit result

The default value was loaded as the index of the 0.0 constant instead of the constant itself, so
functions that did not set their result returned garbage unless 0.0 was the first constant.
---
 core/src/compiler/top.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 670dba7..20ed801 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1151,7 +1151,11 @@ fn compile_user_callable(
         // of the result to properly allocate it.
         let value = match vtype {
             ExprType::Boolean | ExprType::Integer => 0,
-            ExprType::Double => ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?,
+            ExprType::Double => {
+                // The constant is not loaded because zero is represented by all zero bits.
+                ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?;
+                0
+            }
             ExprType::Text => {
                 ctx.codegen.get_constant(ConstantDatum::Text(String::new()), key_pos)?
             }
-- 
2.43.0


From bf239c1a14bd2ac787f4cbf9576e858949678f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 02/47] fix: Reject negated integer literals that overflow

DATA -&x80000000 and STEP -&x80000000 crashed the parser because the minimum integer cannot be
negated.
---
 core/src/parser.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 30e75d6..8bb5241 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -478,10 +478,15 @@ impl<'a> Parser<'a> {
                             value: -d,
                             pos: token_span.pos,
                         }))),
-                        Token::Integer(i) => values.push(Some(Expr::Integer(IntegerSpan {
-                            value: -i,
-                            pos: token_span.pos,
-                        }))),
+                        Token::Integer(i) => {
+                            let value = i.checked_neg().ok_or_else(|| {
+                                Error::Bad(token_span2.pos, "Integer overflow".to_owned())
+                            })?;
+                            values.push(Some(Expr::Integer(IntegerSpan {
+                                value,
+                                pos: token_span.pos,
+                            })))
+                        }
                         _ => {
                             return Err(Error::Bad(
                                 token_span.pos,
@@ -1234,9 +1239,12 @@ impl<'a> Parser<'a> {
                     }
                     Token::Integer(i) => {
                         let peeked = self.lexer.consume_peeked();
+                        let value = i.checked_neg().ok_or_else(|| {
+                            Error::Bad(peeked.pos, "Integer overflow".to_owned())
+                        })?;
                         Ok((
-                            Expr::Integer(IntegerSpan { value: -i, pos: peeked.pos }),
-                            (-i).cmp(&0),
+                            Expr::Integer(IntegerSpan { value, pos: peeked.pos }),
+                            value.cmp(&0),
                             false,
                         ))
                     }
-- 
2.43.0


From d49b5e9af49ff7f3452f14c1a10c604d41c14d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 03/47] fix: Reject NOT between two operands

An expression such as 1 NOT 2 was accepted and silently dropped one of its operands.
---
 core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 8bb5241..3c0c7c2 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -902,6 +902,12 @@ impl<'a> Parser<'a> {
                 }
 
                 Token::Not => {
+                    if !need_operand {
+                        return Err(Error::Bad(
+                            ts.pos,
+                            format!("Unexpected {} in expression", ts.token),
+                        ));
+                    }
                     op_spans.push(ExprOpSpan::new(ExprOp::Not, ts.pos));
                     need_operand = true;
                 }
-- 
2.43.0


From 66b23026115ff6519e32b83d74b492b22b0a982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:16 +0000
Subject: [PATCH 04/47] fix: Raise an exception when an array does not fit in
 memory

DIM a(65536, 65536, 65536, 65536) overflowed the computation of the array size, and arrays that
cannot be allocated aborted the process.
---
 core/src/vm/context.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c7ef659..106cffe 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,7 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
@@ -630,9 +630,17 @@ impl Context {
                 Ok(n) => n,
             };
             dimensions.push(dim);
-            total *= dim;
+            total = total.saturating_mul(dim);
         }
 
+        // Probe for the space first because the allocations below abort the process on failure.
+        let mut probe: Vec<u64> = vec![];
+        if probe.try_reserve_exact(total).is_err() {
+            self.set_exception(HeapOverflowError.to_string());
+            return;
+        }
+        drop(std::hint::black_box(probe));
+
         let values = match subtype {
             ExprType::Boolean | ExprType::Double | ExprType::Integer => {
                 vec![0; total]
-- 
2.43.0


From d6e304783e12673cc0e4e109e06c7c39c9fb40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 05/47] fix: Resume at the right place after the last statement
 of a block

Under ON ERROR RESUME NEXT, an error in the last statement of a program indexed the image out of
bounds, an error in the last statement of a FUNCTION or SUB continued past its definition without
returning, and an error in the statement before a definition ran the body of the definition.
---
 core/src/compiler/top.rs | 2 ++
 core/src/vm/mod.rs       | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 20ed801..8b1976a 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1124,6 +1124,7 @@ fn compile_user_callable(
     }
 
     let skip_pc = ctx.codegen.emit(bytecode::make_nop(), callable.name_pos);
+    ctx.codegen.mark_statement_start(skip_pc);
 
     let start_pc = ctx.codegen.next_pc();
 
@@ -1177,6 +1178,7 @@ fn compile_user_callable(
     }
 
     let return_addr = ctx.codegen.emit(bytecode::make_return(), callable.end_pos);
+    ctx.codegen.mark_statement_start(return_addr);
     for (addr, pos) in ctx.callable_exit_jumps.drain(..) {
         let target =
             u16::try_from(return_addr).map_err(|_| Error::TargetTooFar(pos, return_addr))?;
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 6b6490b..89037dc 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -350,7 +350,7 @@ impl Vm {
                 true
             }
             ErrorHandler::ResumeNext => {
-                let mut next_pc = image.code.len();
+                let mut next_pc = image.code.len() - 1; // The EOF instruction.
                 for (idx, meta) in image.debug_info.instrs.iter().enumerate().skip(pc + 1) {
                     if meta.is_stmt_start {
                         next_pc = idx;
-- 
2.43.0


From 8fab3202a1563e8687a6b0366aaa55864e598ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 06/47] fix: Reject duplicate parameter names in FUNCTION and
 SUB

Two parameters with the same name, or a parameter named after its function, crashed the compiler.
---
 core/src/compiler/top.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 8b1976a..71c6a53 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1164,10 +1164,13 @@ fn compile_user_callable(
         ctx.codegen.emit(bytecode::make_load_integer(ret_reg, value), key_pos);
     }
     for param in callable.params {
-        let key = SymbolKey::from(param.name);
+        let key = SymbolKey::from(&param.name);
+        if symtable.contains_local(&key) {
+            return Err(Error::from_syms(syms::Error::AlreadyDefined(param), key_pos));
+        }
         symtable
             .put_local(
-                key.clone(),
+                key,
                 SymbolPrototype::Scalar(param.ref_type.unwrap_or(ExprType::Integer)),
             )
             .map_err(|e| Error::from_syms(e, key_pos))?;
-- 
2.43.0


From 672adc5dbb4ad51b95c48b871a0627fea58a53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 07/47] fix: Do not let EXIT DO and EXIT FOR leave a FUNCTION
 or SUB

A definition nested in a loop could exit the loop around it, which jumped out of the callable
without returning from it.
---
 core/src/compiler/top.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 71c6a53..7bc74c9 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1176,9 +1176,14 @@ fn compile_user_callable(
             .map_err(|e| Error::from_syms(e, key_pos))?;
     }
 
+    // Loops around the definition are not loops of its body.
+    let do_exit_stack = std::mem::take(&mut ctx.do_exit_stack);
+    let for_exit_stack = std::mem::take(&mut ctx.for_exit_stack);
     for stmt in callable.body {
         compile_stmt(ctx, &mut symtable, stmt)?;
     }
+    ctx.do_exit_stack = do_exit_stack;
+    ctx.for_exit_stack = for_exit_stack;
 
     let return_addr = ctx.codegen.emit(bytecode::make_return(), callable.end_pos);
     ctx.codegen.mark_statement_start(return_addr);
-- 
2.43.0


From 0e3e419eab7ebf8f721d5ed4204b4bd6c3b585a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 08/47] fix: Run error handlers in the scope that set them

When an error happened inside a FUNCTION or SUB, the ON ERROR GOTO handler of the main program ran
with the frame of the failed call so it accessed the wrong variables.
---
 core/src/vm/context.rs | 22 ++++++++++++++++------
 core/src/vm/mod.rs     |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 106cffe..cfb2456 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -68,7 +68,9 @@ pub(super) enum ErrorHandler {
     /// TODO(jmmv): Revisit how `active` is cleared once we implement the `RESUME` statement.
     /// For now, a jump handler must be explicitly re-armed with another `ON ERROR` statement
     /// after it handles an exception.
-    Jump { active: bool, addr: Address },
+    ///
+    /// `depth` is the size of the call stack when the handler was set.
+    Jump { active: bool, addr: Address, depth: usize },
 
     /// Errors resume execution at the next statement.
     ResumeNext,
@@ -260,12 +262,19 @@ impl Context {
         self.err_handler = ErrorHandler::None;
     }
 
-    /// Marks the current jump-based error handler as active.
+    /// Marks the current jump-based error handler as active and abandons all function and
+    /// subroutine calls that started after the handler was set.
     pub(super) fn set_error_handler_active(&mut self) {
-        self.err_handler = match self.err_handler {
-            ErrorHandler::Jump { active: false, addr } => ErrorHandler::Jump { active: true, addr },
-            _ => unreachable!("Only inactive jump handlers can be activated"),
+        let ErrorHandler::Jump { active: false, addr, depth } = self.err_handler else {
+            unreachable!("Only inactive jump handlers can be activated");
         };
+        self.err_handler = ErrorHandler::Jump { active: true, addr, depth };
+
+        let first_call = self.call_stack.iter().skip(depth).position(|f| f.ret_reg.is_some());
+        if let Some(i) = first_call {
+            self.fp = self.call_stack[depth + i].old_fp;
+            self.call_stack.truncate(depth + i);
+        }
     }
 
     /// Dereferences a pointer register as a string.
@@ -1084,7 +1093,8 @@ impl Context {
         self.err_handler = match mode {
             ErrorHandlerMode::None => ErrorHandler::None,
             ErrorHandlerMode::Jump => {
-                ErrorHandler::Jump { active: false, addr: usize::from(target) }
+                let depth = self.call_stack.len();
+                ErrorHandler::Jump { active: false, addr: usize::from(target), depth }
             }
             ErrorHandlerMode::ResumeNext => ErrorHandler::ResumeNext,
         };
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 89037dc..61f171a 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -344,7 +344,7 @@ impl Vm {
         match self.context.error_handler() {
             ErrorHandler::None => false,
             ErrorHandler::Jump { active: true, .. } => false,
-            ErrorHandler::Jump { active: false, addr } => {
+            ErrorHandler::Jump { active: false, addr, .. } => {
                 self.context.set_error_handler_active();
                 self.context.set_pc(addr);
                 true
-- 
2.43.0


From 9058dd6d099ee2225078f7a6b6c0079fbfe66123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 09/47] fix: Abandon all calls when execution stops

An END, an uncaught error or an interruption inside a FUNCTION, SUB or GOSUB left the frames of the
calls behind, so code appended later accessed the wrong variables and RETURN resumed the stopped
program.
---
 core/src/vm/context.rs | 7 +++++++
 core/src/vm/mod.rs     | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index cfb2456..1089b9a 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -252,6 +252,13 @@ impl Context {
         self.pc = pc;
     }
 
+    /// Abandons all calls in progress and sets the program counter to `pc`.
+    pub(super) fn park(&mut self, pc: Address) {
+        self.pc = pc;
+        self.fp = usize::from(Register::MAX_GLOBAL);
+        self.call_stack.clear();
+    }
+
     /// Returns the current error handler configuration.
     pub(super) fn error_handler(&self) -> ErrorHandler {
         self.err_handler
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 61f171a..c9bff17 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -298,7 +298,7 @@ impl Vm {
     /// Parks execution at the current EOF instruction so later appended code can resume.
     fn park_at_eof(&mut self, image: &Image) {
         debug_assert!(!image.code.is_empty());
-        self.context.set_pc(image.code.len() - 1);
+        self.context.park(image.code.len() - 1);
     }
 
     /// Constructs a `Scope` for an upcall with arguments starting at `reg`.
-- 
2.43.0


From 1ad50a41a8494ffe72e317217edfe3a960259fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 10/47] fix: Raise an exception when using an array that was
 not created

A DIM that is jumped over or that fails leaves its variable without an array, and any later access
to it crashed the interpreter.
---
 core/src/callable.rs   | 22 +++++++++-------------
 core/src/mem.rs        | 20 ++++++++++++++------
 core/src/vm/context.rs | 11 ++++++-----
 core/src/vm/mod.rs     |  7 +++----
 std/src/arrays.rs      |  6 ++++++
 5 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/core/src/callable.rs b/core/src/callable.rs
index 985077b..8cb2a71 100644
--- a/core/src/callable.rs
+++ b/core/src/callable.rs
@@ -21,7 +21,7 @@ use crate::ast::ExprType;
 use crate::bytecode::TaggedRegisterRef;
 use crate::bytecode::VarArgTag;
 use crate::mem::HeapOverflowError;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, UNDEFINED_ARRAY_MSG};
 use crate::reader::LineCol;
 use async_trait::async_trait;
 use std::borrow::Cow;
@@ -748,20 +748,16 @@ fn deref_string<'a>(
     ptr.resolve_string(constants, heap)
 }
 
-/// Dereferences this register reference as an array and returns its contents.
-fn array_data<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> &'a ArrayData {
-    let ptr = DatumPtr::from(regs[index]);
-    let heap_idx = ptr.heap_index();
-    let HeapDatum::Array(a) = heap.get(heap_idx) else {
-        panic!("Scalar variable does not point to an array on the heap");
-    };
-    a
+/// Dereferences this register reference as an array and returns its contents, if the array
+/// exists.
+fn array_data<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> Option<&'a ArrayData> {
+    DatumPtr::from(regs[index]).resolve_array(heap).map(|(_, a)| a)
 }
 
-/// Dereferences this register reference as an array and returns its dimensions.
+/// Dereferences this register reference as an array and returns its dimensions, which are empty
+/// if the array has not been defined yet.
 fn array_dimensions<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> &'a [usize] {
-    let a = array_data(regs, index, heap);
-    &a.dimensions
+    array_data(regs, index, heap).map(|a| a.dimensions.as_slice()).unwrap_or(&[])
 }
 
 /// Dereferences an integer from an array element in this register reference.
@@ -773,7 +769,7 @@ fn deref_array_integer(
     subscripts: &[i32],
 ) -> Result<i32, String> {
     assert_eq!(ExprType::Integer, vtype);
-    let a = array_data(regs, index, heap);
+    let a = array_data(regs, index, heap).ok_or(UNDEFINED_ARRAY_MSG)?;
     let flat_idx = a.flat_index(subscripts)?;
     Ok(a.values[flat_idx] as i32)
 }
diff --git a/core/src/mem.rs b/core/src/mem.rs
index dda7538..2b12f80 100644
--- a/core/src/mem.rs
+++ b/core/src/mem.rs
@@ -21,6 +21,9 @@ use crate::num::{U24, unchecked_u24_as_usize};
 use std::convert::TryFrom;
 use std::hash::Hash;
 
+/// Message of the error raised when using an array that was not created.
+pub(crate) const UNDEFINED_ARRAY_MSG: &str = "Array has not been defined yet";
+
 /// Data for a multidimensional array stored on the heap.
 #[derive(Clone, Debug)]
 pub(crate) struct ArrayData {
@@ -327,13 +330,18 @@ impl DatumPtr {
         }
     }
 
-    /// Extracts the heap index from this pointer.
+    /// Resolves this pointer and returns the heap index of the array it points to.
     ///
-    /// Panics if this is not a heap pointer.
-    pub(crate) fn heap_index(&self) -> usize {
-        match self {
-            DatumPtr::Heap(index) => unchecked_u24_as_usize(*index),
-            DatumPtr::Constant(_) => panic!("Expected a heap pointer"),
+    /// Returns `None` if there is no such array, which happens when the program uses an array
+    /// whose definition was skipped or failed at runtime.
+    pub(crate) fn resolve_array<'b>(&self, heap: &'b Heap) -> Option<(usize, &'b ArrayData)> {
+        let DatumPtr::Heap(index) = self else {
+            return None;
+        };
+        let index = unchecked_u24_as_usize(*index);
+        match heap.get(index) {
+            HeapDatum::Array(a) => Some((index, a)),
+            HeapDatum::Text(_) => None,
         }
     }
 }
diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 1089b9a..37c372d 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,9 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
+use crate::mem::{
+    ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError, UNDEFINED_ARRAY_MSG,
+};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
@@ -321,10 +323,9 @@ impl Context {
         heap: &Heap,
     ) -> Option<(usize, usize)> {
         let arr_ptr = DatumPtr::from(self.get_reg(arr_reg));
-        let heap_idx = arr_ptr.heap_index();
-        let array = match heap.get(heap_idx) {
-            HeapDatum::Array(a) => a,
-            _ => unreachable!("Register must point to an array"),
+        let Some((heap_idx, array)) = arr_ptr.resolve_array(heap) else {
+            self.set_exception(UNDEFINED_ARRAY_MSG);
+            return None;
         };
 
         let ndims = array.dimensions.len();
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index c9bff17..5cef148 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -23,7 +23,7 @@ use crate::bytecode::{ExitCode, Register};
 use crate::callable::{Callable, Scope};
 use crate::compiler::SymbolKey;
 use crate::image::{GlobalVarInfo, Image};
-use crate::mem::{ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ConstantDatum, DatumPtr, Heap, UNDEFINED_ARRAY_MSG};
 use crate::num::U24;
 use crate::reader::LineCol;
 use std::collections::HashMap;
@@ -220,9 +220,8 @@ impl Vm {
         }
         let raw = read_raw(&self.context, info.reg);
         let ptr = DatumPtr::from(raw);
-        let heap_idx = ptr.heap_index();
-        let HeapDatum::Array(a) = self.heap.get(heap_idx) else {
-            panic!("Array variable does not point to an array on the heap");
+        let Some((_, a)) = ptr.resolve_array(&self.heap) else {
+            return Err(GetGlobalError::SubscriptOutOfBounds(UNDEFINED_ARRAY_MSG.to_owned()));
         };
         let flat_idx = a.flat_index(subscripts).map_err(GetGlobalError::SubscriptOutOfBounds)?;
         let v = a.values[flat_idx];
diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 9b806f4..8e59614 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -55,6 +55,12 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     } else {
         debug_assert_eq!(1, scope.nargs());
 
+        if dimensions.is_empty() {
+            return Err(CallError::Syntax(
+                scope.get_pos(0),
+                "Array has not been defined yet".to_owned(),
+            ));
+        }
         if dimensions.len() > 1 {
             return Err(CallError::Syntax(
                 scope.get_pos(0),
-- 
2.43.0


From fa61f195c23fb737be80fec8573ac98dde213760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:22 +0000
Subject: [PATCH 11/47] fix: Reject dimension 0 in LBOUND and UBOUND

UBOUND(a, 0) crashed the interpreter.
---
 std/src/arrays.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 8e59614..745b65d 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -37,7 +37,7 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-        if i < 0 {
+        if i <= 0 {
             return Err(CallError::Syntax(
                 scope.get_pos(1),
                 format!("Dimension {} must be positive", i),
-- 
2.43.0


From 7f4305efb61bf2dd6cb2b02a97bfa27667606588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:34 +0000
Subject: [PATCH 12/47] fix: Report calls to undefined callables and unknown
 labels reliably

Calling a FUNCTION or SUB that was declared but never defined crashed the compiler, and the label
reported when several are unknown changed from run to run.
---
 core/src/compiler/codegen.rs | 15 +++++++++++----
 core/src/compiler/top.rs     |  5 +----
 core/src/parser.rs           |  6 +++---
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 45505bf..2a0fe8a 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -16,7 +16,7 @@
 
 //! Code generation for the EndBASIC compiler.
 
-use crate::ast::ExprType;
+use crate::ast::{ExprType, VarRef};
 use crate::bytecode::{self, ErrorHandlerMode, Register};
 use crate::compiler::ids::HashMapWithIds;
 use crate::compiler::{Error, Result, SymbolKey};
@@ -199,12 +199,19 @@ impl Codegen {
 
     /// Applies all registered fixups to the generated code.
     fn apply_fixups(&mut self) -> Result<()> {
-        for (addr, fixup) in self.fixups.drain() {
+        // Go in address order so that the error we report, if any, is the first one.
+        let mut fixups: Vec<_> = self.fixups.drain().collect();
+        fixups.sort_by_key(|(addr, _)| *addr);
+        for (addr, fixup) in fixups {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-                    let (target, _end) =
-                        self.user_callables_addresses.get(&key).expect("Must be present");
+                    let Some((target, _end)) = self.user_callables_addresses.get(&key) else {
+                        return Err(Error::UndefinedSymbol(
+                            pos,
+                            VarRef::new(key.to_string(), None),
+                        ));
+                    };
                     bytecode::make_call(reg, Self::make_target(*target, pos)?)
                 }
                 Fixup::Gosub(label) => {
diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 7bc74c9..b3cf17b 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1169,10 +1169,7 @@ fn compile_user_callable(
             return Err(Error::from_syms(syms::Error::AlreadyDefined(param), key_pos));
         }
         symtable
-            .put_local(
-                key,
-                SymbolPrototype::Scalar(param.ref_type.unwrap_or(ExprType::Integer)),
-            )
+            .put_local(key, SymbolPrototype::Scalar(param.ref_type.unwrap_or(ExprType::Integer)))
             .map_err(|e| Error::from_syms(e, key_pos))?;
     }
 
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 3c0c7c2..638e516 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -1245,9 +1245,9 @@ impl<'a> Parser<'a> {
                     }
                     Token::Integer(i) => {
                         let peeked = self.lexer.consume_peeked();
-                        let value = i.checked_neg().ok_or_else(|| {
-                            Error::Bad(peeked.pos, "Integer overflow".to_owned())
-                        })?;
+                        let value = i
+                            .checked_neg()
+                            .ok_or_else(|| Error::Bad(peeked.pos, "Integer overflow".to_owned()))?;
                         Ok((
                             Expr::Integer(IntegerSpan { value, pos: peeked.pos }),
                             value.cmp(&0),
-- 
2.43.0


From 8476a4855f1dd9ec375d5068e223e838c8121228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:21 +0000
Subject: [PATCH 13/47] fix: do not compute into a shared variable that called
 functions can see

An assignment to a shared variable computed its expression directly in
the variable's register, so a function called halfway through (as in
g = 1 + f) observed a partial result instead of the old value, or had its
own assignment to the variable mixed into the result.
---
 core/src/compiler/top.rs | 62 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index b3cf17b..e28fa1b 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -155,6 +155,61 @@ fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
     false
 }
 
+/// Returns true if computing `expr` calls a function after having computed some other operand.
+fn expr_calls_in_operands(expr: &Expr, symtable: &LocalSymtable<'_>) -> bool {
+    let mut stack = vec![(expr, false)];
+    while let Some((expr, in_operand)) = stack.pop() {
+        match expr {
+            Expr::Boolean(..) | Expr::Double(..) | Expr::Integer(..) | Expr::Text(..) => {}
+
+            Expr::Symbol(span) => {
+                if in_operand && symtable.get_callable(&SymbolKey::from(&span.vref.name)).is_some()
+                {
+                    return true;
+                }
+            }
+
+            Expr::Negate(span) | Expr::Not(span) => {
+                stack.push((&span.expr, in_operand));
+            }
+
+            Expr::Call(span) => {
+                if in_operand && symtable.get_callable(&SymbolKey::from(&span.vref.name)).is_some()
+                {
+                    return true;
+                }
+                for arg in &span.args {
+                    if let Some(arg_expr) = &arg.expr {
+                        stack.push((arg_expr, in_operand));
+                    }
+                }
+            }
+
+            Expr::Add(span)
+            | Expr::And(span)
+            | Expr::Divide(span)
+            | Expr::Equal(span)
+            | Expr::Greater(span)
+            | Expr::GreaterEqual(span)
+            | Expr::Less(span)
+            | Expr::LessEqual(span)
+            | Expr::Modulo(span)
+            | Expr::Multiply(span)
+            | Expr::NotEqual(span)
+            | Expr::Or(span)
+            | Expr::Power(span)
+            | Expr::ShiftLeft(span)
+            | Expr::ShiftRight(span)
+            | Expr::Subtract(span)
+            | Expr::Xor(span) => {
+                stack.push((&span.lhs, in_operand));
+                stack.push((&span.rhs, true));
+            }
+        }
+    }
+    false
+}
+
 /// Compiles an assignment statement `span` into the `codegen` block.
 fn compile_assignment(
     codegen: &mut Codegen,
@@ -190,7 +245,12 @@ fn compile_assignment(
         Err(e) => return Err(Error::from_syms(e, vref_pos)),
     };
 
-    let has_self_reference = was_defined && expr_references_symbol(&expr, &key);
+    // Operands are computed in the destination register, so the destination cannot be visible
+    // to the expression nor, if it is global, to any function that it calls halfway through.
+    let (is_global, _) = reg.to_parts();
+    let has_self_reference = was_defined
+        && (expr_references_symbol(&expr, &key)
+            || (is_global && expr_calls_in_operands(&expr, symtable)));
 
     if let Some(etype) = etype {
         // The destination variable already exists.  Try to compile the expression into its target
-- 
2.43.0


From 6168d586493c2f08aecea657b46fa464ed199d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:39 +0000
Subject: [PATCH 14/47] fix: do not let argument-less functions clobber the
 variables of their caller

A call to a user-defined function without arguments used the destination
register of the expression as the base of the callee's frame.  When the
destination was a variable (as in v = f), the locals of the function
overwrote the caller's variables that follow it, and when it was a shared
variable the frame moved by a register of a different kind.
---
 core/src/compiler/exprs.rs | 13 ++++++++++++-
 core/src/compiler/syms.rs  |  7 +++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index d965243..97d5a88 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -709,8 +709,19 @@ pub(super) fn compile_expr(
                 }
 
                 if md.is_user_defined() {
+                    // The frame of the callee starts at the register that receives its result, so
+                    // that register must be past all others in use.
+                    let mut scope = symtable.temp_scope();
+                    let ret_reg = if symtable.is_last_local(reg) {
+                        reg
+                    } else {
+                        scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?
+                    };
                     let addr = codegen.emit(bytecode::make_nop(), span.pos);
-                    codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    codegen.add_fixup(addr, Fixup::Call(ret_reg, key));
+                    if reg != ret_reg {
+                        codegen.emit(bytecode::make_move(reg, ret_reg), span.pos);
+                    }
                 } else {
                     let upcall = codegen.get_upcall(key, Some(etype), span.pos)?;
                     let (is_global, _) = reg.to_parts();
diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index d780b99..8aa8e34 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -470,6 +470,13 @@ impl<'temp, 'local> TempSymtable<'temp, 'local> {
         self.symtable.get_callable(key)
     }
 
+    /// Returns true if `reg` is the last local or temporary register in use.
+    pub(crate) fn is_last_local(&self, reg: Register) -> bool {
+        let (is_global, index) = reg.to_parts();
+        let ntemps = usize::from(*self.next_temp.borrow());
+        !is_global && usize::from(index) + 1 == self.symtable.locals.len() + ntemps
+    }
+
     /// Enters a new temporary scope.
     pub(crate) fn temp_scope(&self) -> TempScope {
         let nlocals = u8::try_from(self.symtable.locals.len())
-- 
2.43.0


From 91f6f76289725735e33d6012fac27e872bab0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:32 +0000
Subject: [PATCH 15/47] fix: make room for all registers of a frame before
 calling built-ins

Built-ins access their result and argument registers directly, but registers
past the first 255 were only created when instructions wrote to them, so the
host crashed when a function without arguments was called deep in recursion
or stored its result in the very last register.
---
 core/src/vm/context.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 37c372d..98bbcee 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -211,7 +211,7 @@ impl Context {
             fp: usize::from(Register::MAX_GLOBAL),
             stop: None,
             err_handler: ErrorHandler::None,
-            regs: vec![0; usize::from(Register::MAX)],
+            regs: vec![0; usize::from(Register::MAX) + 1],
             call_stack: vec![],
             max_call_stack,
             yield_pending: false,
@@ -709,6 +709,12 @@ impl Context {
         let (is_global, index) = reg.to_parts();
         debug_assert!(!is_global, "Function results are always stored to a temp register");
         self.fp += usize::from(index);
+
+        // Upcalls access the registers of the frame directly so they must all exist.
+        let frame_end = self.fp + usize::from(Register::MAX);
+        if frame_end > self.regs.len() {
+            self.regs.resize(frame_end, 0);
+        }
     }
 
     /// Implements the `Concat` opcode.
-- 
2.43.0


From b0460407569c77f6a3fafb4dd88d07572fcf0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 16/47] fix: MIN and MAX of infinite numbers

The accumulators started at the largest finite numbers, so MAX of negative
infinities and MIN of positive infinities returned a number that was not among
the arguments.
---
 std/src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index ff527fb..5494a2d 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -648,7 +648,7 @@ impl Callable for MaxFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut max = f64::MIN;
+        let mut max = f64::NEG_INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n > max {
@@ -693,7 +693,7 @@ impl Callable for MinFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut min = f64::MAX;
+        let mut min = f64::INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n < min {
-- 
2.43.0


From aaac3d25834cac1e3bf5bd2b038b2827db936b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 17/47] fix: ROUND with very large numbers of decimals

---
 std/src/numerics.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 5494a2d..962b160 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -954,7 +954,16 @@ impl Callable for RoundFunction {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals);
-            scope.return_double((value * factor).round() / factor)
+            let scaled = value * factor;
+            scope.return_double(if !scaled.is_finite() {
+                // More digits than any number has: there is nothing to round.
+                value
+            } else if factor == 0.0 {
+                // Half a unit of the last digit to keep is larger than any number.
+                0.0
+            } else {
+                scaled.round() / factor
+            })
         }
     }
 }
-- 
2.43.0


From 1b7a2aa3171fdc496c68655cc9b3962d729c0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 18/47] fix: PRINT's columns when the text is not ASCII

---
 std/src/console/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/cmds.rs b/std/src/console/cmds.rs
index c6b1786..4971762 100644
--- a/std/src/console/cmds.rs
+++ b/std/src/console/cmds.rs
@@ -590,7 +590,7 @@ impl Callable for PrintCommand {
                 ArgSep::End => break,
                 ArgSep::Long => {
                     text += " ";
-                    while !text.len().is_multiple_of(14) {
+                    while !text.chars().count().is_multiple_of(14) {
                         text += " ";
                     }
                 }
-- 
2.43.0


From 361e9000ca17aec57ee9a6420092aaa95efac323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 19/47] fix: SLEEP and SOUND with durations that are not
 representable

---
 std/src/datetime.rs   | 4 +++-
 std/src/sound/cmds.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/std/src/datetime.rs b/std/src/datetime.rs
index eaa2a74..2a5b07c 100644
--- a/std/src/datetime.rs
+++ b/std/src/datetime.rs
@@ -153,8 +153,10 @@ impl Callable for SleepCommand {
             ));
         }
 
+        let duration = Duration::try_from_secs_f64(n)
+            .map_err(|e| CallError::Syntax(scope.get_pos(0), e.to_string()))?;
         self.datetime
-            .sleep(Duration::from_secs_f64(n))
+            .sleep(duration)
             .await
             .map_err(|e| CallError::Syntax(scope.get_pos(0), e))
     }
diff --git a/std/src/sound/cmds.rs b/std/src/sound/cmds.rs
index ab3d3ef..48218da 100644
--- a/std/src/sound/cmds.rs
+++ b/std/src/sound/cmds.rs
@@ -139,9 +139,12 @@ impl Callable for SoundCommand {
             ));
         }
 
+        let duration = Duration::try_from_secs_f64(duration)
+            .map_err(|e| CallError::Syntax(scope.get_pos(1), e.to_string()))?;
+
         self.console
             .borrow_mut()
-            .play_tone(Tone::square(pitch, Duration::from_secs_f64(duration)))
+            .play_tone(Tone::square(pitch, duration))
             .await?;
         Ok(())
     }
-- 
2.43.0


From 3a27c413a45a6a38d5cc82f3d0e75714dd9533de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 20/47] fix: Prompts that are not ASCII

---
 std/src/console/readline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index a7fedfb..c963b7d 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -349,15 +349,15 @@ impl<'a, 'h> Readline<'a, 'h> {
         };
 
         let mut prompt = Cow::from(prompt);
-        let mut prompt_len = prompt.len();
+        let mut prompt_len = prompt.chars().count();
         if prompt_len >= console_width {
-            // TODO(jmmv): This slices by bytes and can split non-ASCII prompts.
             if console_width >= 5 {
-                prompt = Cow::from(format!("{}...", &prompt[0..console_width - 5]));
+                let shortened = prompt.chars().take(console_width - 5).collect::<String>();
+                prompt = Cow::from(format!("{}...", shortened));
             } else {
                 prompt = Cow::from("");
             }
-            prompt_len = prompt.len();
+            prompt_len = prompt.chars().count();
         }
 
         let input_width = {
-- 
2.43.0


From d7563809b438a18091733f93638aeea63fdbc0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 21/47] fix: PAINT with a color that looks like the one to
 replace

---
 std/src/console/drawing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e0cc905..0b62b0e 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -142,6 +142,11 @@ where
         }
 
         rasops.draw_pixel(xy)?;
+        if rasops.peek_pixel(xy)? == Some(seed_color) {
+            // The fill color is different but looks the same as the color to replace, so there is
+            // nothing to do and we would never be able to tell which pixels were visited.
+            return Ok(());
+        }
 
         if xy.x > i16::MIN {
             pending.push(PixelsXY::new(xy.x - 1, xy.y));
-- 
2.43.0


From 7e1bc8141817d253bfa21c6dc939230a29dab0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 22/47] fix: Do not paint filled rectangles that are out of the
 screen

---
 std/src/gfx/lcd/buffered/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 683e16a..7c99240 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -486,6 +486,11 @@ where
     }
 
     fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
+        if self.clip_xy(PixelsXY::new(xy.x.max(0), xy.y.max(0))).is_none() {
+            // The rectangle starts past the right or bottom borders so no part of it is visible.
+            return Ok(());
+        }
+
         let x1y1 = self.clamp_xy(xy);
         let x2y2 = self.clip_x2y2(xy, size);
         match x2y2 {
-- 
2.43.0


From 607fd5bb65b9b27055f9acd7c09327c4dcb402da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 23/47] fix: Circles close to the limits of the coordinates

---
 std/src/console/drawing.rs | 49 +++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 0b62b0e..7caa421 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -173,8 +173,11 @@ pub fn draw_circle<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> io::Resu
 where
     R: RasterOps,
 {
-    fn point<R: RasterOps>(rasops: &mut R, x: i16, y: i16) -> io::Result<()> {
-        rasops.draw_pixel(PixelsXY { x, y })
+    fn point<R: RasterOps>(rasops: &mut R, x: i32, y: i32) -> io::Result<()> {
+        match (i16::try_from(x), i16::try_from(y)) {
+            (Ok(x), Ok(y)) => rasops.draw_pixel(PixelsXY { x, y }),
+            _ => Ok(()),
+        }
     }
 
     if radius == 0 {
@@ -197,15 +200,19 @@ where
     let mut ty: i16 = 1;
     let mut e: i16 = tx - diameter;
 
+    // Widen coordinates so we don't have to worry about overflows.
+    let (cx, cy) = (i32::from(center.x), i32::from(center.y));
+
     while x >= y {
-        point(rasops, center.x + x, center.y - y)?;
-        point(rasops, center.x + x, center.y + y)?;
-        point(rasops, center.x - x, center.y - y)?;
-        point(rasops, center.x - x, center.y + y)?;
-        point(rasops, center.x + y, center.y - x)?;
-        point(rasops, center.x + y, center.y + x)?;
-        point(rasops, center.x - y, center.y - x)?;
-        point(rasops, center.x - y, center.y + x)?;
+        let (dx, dy) = (i32::from(x), i32::from(y));
+        point(rasops, cx + dx, cy - dy)?;
+        point(rasops, cx + dx, cy + dy)?;
+        point(rasops, cx - dx, cy - dy)?;
+        point(rasops, cx - dx, cy + dy)?;
+        point(rasops, cx + dy, cy - dx)?;
+        point(rasops, cx + dy, cy + dx)?;
+        point(rasops, cx - dy, cy - dx)?;
+        point(rasops, cx - dy, cy + dx)?;
 
         if e <= 0 {
             y += 1;
@@ -231,8 +238,14 @@ pub fn draw_circle_filled<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> i
 where
     R: RasterOps,
 {
-    fn line<R: RasterOps>(rasops: &mut R, x1: i16, y1: i16, x2: i16, y2: i16) -> io::Result<()> {
-        rasops.draw_line(PixelsXY { x: x1, y: y1 }, PixelsXY { x: x2, y: y2 })
+    fn line<R: RasterOps>(rasops: &mut R, x: i32, y1: i32, y2: i32) -> io::Result<()> {
+        match i16::try_from(x) {
+            Ok(x) => rasops.draw_line(
+                PixelsXY { x, y: y1.clamped_into() },
+                PixelsXY { x, y: y2.clamped_into() },
+            ),
+            Err(_) => Ok(()),
+        }
     }
 
     if radius == 0 {
@@ -256,11 +269,15 @@ where
     let mut ty: i16 = 1;
     let mut e: i16 = tx - diameter;
 
+    // Widen coordinates so we don't have to worry about overflows.
+    let (cx, cy) = (i32::from(center.x), i32::from(center.y));
+
     while x >= y {
-        line(rasops, center.x + x, center.y - y, center.x + x, center.y + y)?;
-        line(rasops, center.x - x, center.y - y, center.x - x, center.y + y)?;
-        line(rasops, center.x + y, center.y - x, center.x + y, center.y + x)?;
-        line(rasops, center.x - y, center.y - x, center.x - y, center.y + x)?;
+        let (dx, dy) = (i32::from(x), i32::from(y));
+        line(rasops, cx + dx, cy - dy, cy + dy)?;
+        line(rasops, cx - dx, cy - dy, cy + dy)?;
+        line(rasops, cx + dy, cy - dx, cy + dx)?;
+        line(rasops, cx - dy, cy - dx, cy + dx)?;
 
         if e <= 0 {
             y += 1;
-- 
2.43.0


From 06455455d2d064a107705722effe01daa41d6053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 24/47] fix: Filled polygons with very long edges

---
 std/src/console/drawing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 7caa421..00d11ad 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -337,7 +337,8 @@ fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
 
     let x1 = i32::from(p1.x);
     let x2 = i32::from(p2.x);
-    Some(x1 + (y - y1) * (x2 - x1) / (y2 - y1))
+    let offset = i64::from(y - y1) * i64::from(x2 - x1) / i64::from(y2 - y1);
+    Some(x1 + i32::try_from(offset).expect("The intersection must be within the edge"))
 }
 
 /// Fills the poligon defined by `points` using a scanline intersection algorithm.
-- 
2.43.0


From 73a3fcbbe699a4304ee4c04fe391038541813bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 25/47] fix: Graphical consoles whose current line is full

---
 std/src/console/graphics.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 60f693d..1764d34 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -385,7 +385,9 @@ where
     ///
     /// Does not present the canvas.
     fn draw_cursor(&mut self) -> io::Result<()> {
-        if !self.cursor_visible {
+        if !self.cursor_visible || self.cursor_pos.x >= self.size_chars.x {
+            // After writing to the last column, the cursor stays past it until more text is
+            // written, and there is nothing to draw in that position.
             return Ok(());
         }
 
@@ -526,12 +528,13 @@ where
                 let pos = self.cursor_pos.clamped_mul(self.glyph_size);
                 debug_assert!(pos.x >= 0, "Inputs to pos are unsigned");
                 debug_assert!(pos.y >= 0, "Inputs to pos are unsigned");
-                let size = SizeInPixels::new(
-                    (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into(),
-                    self.glyph_size.height,
-                );
-                self.raster_ops.set_draw_color(self.bg_color);
-                self.raster_ops.draw_rect_filled(pos, size)?;
+                let width: u16 =
+                    (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into();
+                if width > 0 {
+                    let size = SizeInPixels::new(width, self.glyph_size.height);
+                    self.raster_ops.set_draw_color(self.bg_color);
+                    self.raster_ops.draw_rect_filled(pos, size)?;
+                }
             }
         }
         self.draw_cursor()?;
-- 
2.43.0


From b1aa0440f7ce7a0144645ddcd6db3b35f26aa09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 26/47] fix: Clear the previous character at the beginning of
 the line

---
 std/src/console/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 1764d34..84f0f80 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -514,8 +514,8 @@ where
                 self.cursor_pos.x = 0;
             }
             ClearType::PreviousChar => {
+                self.clear_cursor()?;
                 if self.cursor_pos.x > 0 {
-                    self.clear_cursor()?;
                     let previous_pos = CharsXY::new(self.cursor_pos.x - 1, self.cursor_pos.y);
                     let origin = previous_pos.clamped_mul(self.glyph_size);
                     self.raster_ops.set_draw_color(self.bg_color);
-- 
2.43.0


From 2c6979d5c7490e3e9b11dfac42f6996ef0d3c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 27/47] fix: Do not save the cursor when entering the alternate
 screen

---
 std/src/console/graphics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 84f0f80..4ffa5e2 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -561,6 +561,7 @@ where
             ));
         }
 
+        self.clear_cursor()?;
         let pixels = self.raster_ops.read_pixels(PixelsXY::new(0, 0), self.size_pixels)?;
         self.alt_backup = Some((
             pixels,
-- 
2.43.0


From dab1d4a17110fe1d11980c1e69e7413b53a10875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 28/47] fix: Scroll consoles that have a single line

---
 std/src/console/graphics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 4ffa5e2..9e9594b 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -433,10 +433,16 @@ where
         let text_height: u16 = self.size_chars.y.clamped_mul(self.glyph_size.height);
         let x1y1 = PixelsXY::new(0, self.glyph_size.height.clamped_into());
         let x2y2 = PixelsXY::new(0, 0);
-        let size = SizeInPixels::new(self.size_pixels.width, text_height - self.glyph_size.height);
 
         self.raster_ops.set_draw_color(self.bg_color);
-        self.raster_ops.move_pixels(x1y1, x2y2, size)?;
+        if self.size_chars.y > 1 {
+            let size =
+                SizeInPixels::new(self.size_pixels.width, text_height - self.glyph_size.height);
+            self.raster_ops.move_pixels(x1y1, x2y2, size)?;
+        } else {
+            let size = SizeInPixels::new(self.size_pixels.width, text_height);
+            self.raster_ops.draw_rect_filled(x2y2, size)?;
+        }
         if text_height < self.size_pixels.height {
             let xy = PixelsXY::new(0, text_height.clamped_into());
             let size =
-- 
2.43.0


From db9acdcb3da8e131476172618ec59ff94263e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 29/47] fix: Do not add abandoned lines to the history

---
 std/src/console/readline.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index c963b7d..2a26035 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -401,8 +401,23 @@ impl<'a, 'h> Readline<'a, 'h> {
         Ok(readline)
     }
 
-    /// Runs the interactive key-processing loop until the line is accepted.
+    /// Runs the interactive key-processing loop and returns the accepted line.
     async fn run(mut self) -> io::Result<String> {
+        let result = self.process_keys().await;
+        match result {
+            Ok(()) => Ok(self.finish()),
+            Err(e) => {
+                // Editing was abandoned, so drop the entry that was reserved for the new line.
+                if let Some(history) = self.history.as_mut() {
+                    history.pop();
+                }
+                Err(e)
+            }
+        }
+    }
+
+    /// Processes keys until the line is accepted.
+    async fn process_keys(&mut self) -> io::Result<()> {
         loop {
             let result = match self.console.read_key().await? {
                 Key::ArrowDown => self.do_up_down(1),
@@ -423,11 +438,9 @@ impl<'a, 'h> Readline<'a, 'h> {
             }?;
 
             if let DispatchResult::Submit = result {
-                break;
+                return Ok(());
             }
         }
-
-        Ok(self.finish())
     }
 }
 
-- 
2.43.0


From 87d1a276e2a3415eead91fa9b09a0626706e9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 30/47] fix: Compute the indentation of new lines in characters

The editor placed the cursor past the end of the line, or panicked, after
pressing Enter on a line indented with blanks that need more than one byte.
---
 repl/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 2224690..417262b 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -458,7 +458,7 @@ impl Editor {
 
                 Key::NewLine | Key::CarriageReturn => {
                     let indent = copy_indent(&self.content[self.file_pos.line]);
-                    let indent_len = indent.len();
+                    let indent_len = indent.chars().count();
 
                     let appending = (self.file_pos.line + 1 == self.content.len())
                         && (self.file_pos.col == self.content[self.file_pos.line].len());
-- 
2.43.0


From 92f14bc0e7e819d1aae3e3ab77a77dd80bb08e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 31/47] fix: Do not overflow when refilling text for narrow
 consoles

---
 std/src/console/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 971d4cf..88b0d66 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -89,7 +89,7 @@ fn refill_many<S: AsRef<str>, P: IntoIterator<Item = S>>(
             }
         }
 
-        let lines = refill(paragraph, width - 4 - indent.len() - extra_indent.len());
+        let lines = refill(paragraph, width.saturating_sub(4 + indent.len() + extra_indent.len()));
         for line in lines {
             if line.is_empty() {
                 formatted.push(String::new());
-- 
2.43.0


From 031615001ef0b66b68c6c4610eb754aaa5330484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 32/47] fix: Restore the console colors when HELP is
 interrupted

---
 std/src/help.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/std/src/help.rs b/std/src/help.rs
index 4a98957..e049094 100644
--- a/std/src/help.rs
+++ b/std/src/help.rs
@@ -499,11 +499,16 @@ impl Callable for HelpCommand {
 
         if scope.nargs() == 0 {
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 self.summary(&topics, &mut pager).await
             };
+            if result.is_err() {
+                // The output may have been interrupted while printing a highlighted title.
+                console.set_color(previous.0, previous.1)?;
+            }
             result.map_err(CallError::from)?;
         } else {
             debug_assert_eq!(1, scope.nargs());
@@ -511,11 +516,16 @@ impl Callable for HelpCommand {
 
             let topic = topics.find(&t, &scope, 0)?;
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 topic.describe(&mut pager).await
             };
+            if result.is_err() {
+                // The output may have been interrupted while printing a highlighted title.
+                console.set_color(previous.0, previous.1)?;
+            }
             result.map_err(CallError::from)?;
         }
 
-- 
2.43.0


From b6403a0b571bd11e01cb62c9f5dc2fca5f676d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 33/47] fix: Return the exit code of programs run from the
 cloud

The RUN command hides the exit code of the program it runs, so the process
always exited as if the program had succeeded.
---
 repl/src/lib.rs | 10 +++-------
 std/src/lib.rs  |  9 +++++++++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/repl/src/lib.rs b/repl/src/lib.rs
index 71eea03..3d16de2 100644
--- a/repl/src/lib.rs
+++ b/repl/src/lib.rs
@@ -156,13 +156,9 @@ pub async fn run_from_cloud(
     console.borrow_mut().print("Starting...")?;
     console.borrow_mut().print("")?;
 
-    if let Err(e) = machine.compile(&mut "RUN".as_bytes()) {
-        let mut console = console.borrow_mut();
-        console.print(&format!("**** ERROR: {} ****", e))?;
-        return Ok(1);
-    }
-
-    let result = machine.exec().await;
+    // Do not use the RUN command here because it hides the exit code of the program.
+    let text = program.borrow().text();
+    let result = machine.exec_program(&text).await;
 
     let mut console = console.borrow_mut();
 
diff --git a/std/src/lib.rs b/std/src/lib.rs
index 52ccb26..5727877 100644
--- a/std/src/lib.rs
+++ b/std/src/lib.rs
@@ -141,6 +141,15 @@ impl Machine {
         self.compile(&mut program.as_bytes())
     }
 
+    /// Clears the machine and executes `program` from scratch, returning its exit code if it ends
+    /// explicitly.
+    pub async fn exec_program(&mut self, program: &str) -> Result<Option<i32>> {
+        self.run(program.to_owned())?;
+        let result = self.exec().await;
+        self.vm.clear_error_handler();
+        result
+    }
+
     /// Drops any deferred actions from the most recent async upcall.
     fn clear_actions(&mut self) {
         self.actions.borrow_mut().clear();
-- 
2.43.0


From bd659a37478160f94aa2b9bad240bce8ba95c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 34/47] fix: Reject ACLs that end in characters that are not
 ASCII

SHARE split the ACL two bytes before its end without checking if that was the
boundary of a character and crashed if it was not.
---
 client/src/cmds.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 3eb12d9..eb9953f 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -307,7 +307,10 @@ among users of the EndBASIC service.",
 impl ShareCommand {
     /// Parses a textual ACL specification and adds it to `add` or `remove.
     fn parse_acl(mut acl: String, add: &mut FileAcls, remove: &mut FileAcls) -> Result<(), String> {
-        let change = if acl.len() < 3 { String::new() } else { acl.split_off(acl.len() - 2) };
+        let change = match acl.len().checked_sub(2) {
+            Some(pos) if pos > 0 && acl.is_char_boundary(pos) => acl.split_off(pos),
+            _ => String::new(),
+        };
         let username = acl; // For clarity after splitting off the ACL change request.
         match (username, change.as_str()) {
             (username, "+r") if !username.is_empty() => add.add_reader(username),
-- 
2.43.0


From ac8f9f1ac576a24163886d818a3691a35311d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 35/47] fix: Do not crash when sharing files without a session

SHARE works on any drive whose files have ACLs, such as those in memory, and
those can be used without logging into the service.
---
 client/src/cmds.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index eb9953f..fb25177 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -383,7 +383,10 @@ impl Callable for ShareCommand {
             .await
             .map_err(CallError::from)?;
 
-        if Self::has_public_acl(&add) {
+        // Files can also be in drives that are not backed by the service, in which case there may
+        // not be an active session.
+        let username = self.service.borrow().logged_in_username();
+        if let (true, Some(username)) = (Self::has_public_acl(&add), username) {
             let filename = match filename.split_once('/') {
                 Some((_drive, path)) => path,
                 None => &filename,
@@ -396,15 +399,7 @@ impl Callable for ShareCommand {
                 [
                     "You have made the file publicly readable.  As a result, other people can now \
 auto-run your public file by visiting:",
-                    &format!(
-                        "{}?run={}/{}",
-                        self.exec_base_url,
-                        self.service
-                            .borrow()
-                            .logged_in_username()
-                            .expect("SHARE can only succeed against logged in cloud drives"),
-                        filename
-                    ),
+                    &format!("{}?run={}/{}", self.exec_base_url, username, filename),
                 ],
                 "    ",
             )
-- 
2.43.0


From 4ab451b904c9eccdd0061384303453731ee5016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 36/47] fix: Count the length of passwords in characters

---
 client/src/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index fb25177..644797e 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -413,7 +413,7 @@ auto-run your public file by visiting:",
 
 /// Checks if a password is sufficiently complex and returns an error when it isn't.
 fn validate_password_complexity(password: &str) -> Result<(), &'static str> {
-    if password.len() < 8 {
+    if password.chars().count() < 8 {
         return Err("Must be at least 8 characters long");
     }
 
-- 
2.43.0


From cfe61fca4dfe03a15b2a0ffce23b7fb4bc30375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 37/47] fix: Do not include the drive in the address of shared
 files

The slash after the name of the drive is optional so it cannot be used to
tell the name of the file apart.
---
 client/src/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 644797e..8b76005 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -387,7 +387,7 @@ impl Callable for ShareCommand {
         // not be an active session.
         let username = self.service.borrow().logged_in_username();
         if let (true, Some(username)) = (Self::has_public_acl(&add), username) {
-            let filename = match filename.split_once('/') {
+            let filename = match filename.rsplit_once(['/', ':']) {
                 Some((_drive, path)) => path,
                 None => &filename,
             };
-- 
2.43.0


From 1cd2729a3392ddbc4721e86808665e406e2158db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 38/47] fix: Do not crash when the LCD fails while it is being
 released

The console is torn down when its initialization fails, and the attempt to
blank an LCD whose bus has just failed turned the error into a panic.
---
 std/src/gfx/lcd/buffered/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 7c99240..a5d5e12 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -331,8 +331,10 @@ where
     L: Lcd,
 {
     fn drop(&mut self) {
+        // There is nobody to report errors to at this point, and this may be running precisely
+        // because the LCD has failed.
         self.set_draw_color((0, 0, 0));
-        self.clear().unwrap();
+        let _result = self.clear();
     }
 }
 
-- 
2.43.0


From 57d4b5fd7edd342ac19aa876689822ab80a7b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 39/47] fix: Accept scripts with any characters in their second
 line

---
 cli/src/propline.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/src/propline.rs b/cli/src/propline.rs
index 72edfbb..4006808 100644
--- a/cli/src/propline.rs
+++ b/cli/src/propline.rs
@@ -47,8 +47,11 @@ fn parse_propline(line: &str) -> io::Result<PropLine> {
             if line.len() <= 4 {
                 None
             } else {
-                let token = line[0..4].to_ascii_lowercase();
-                if token == "rem " { Some(&line[4..]) } else { None }
+                // The line may have any characters, so there might not be one that ends here.
+                match line.get(..4) {
+                    Some(token) if token.eq_ignore_ascii_case("rem ") => Some(&line[4..]),
+                    _ => None,
+                }
             }
         }
     };
-- 
2.43.0


From 21530dddafa7d1cf9759372469be47e5a1d6903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 40/47] fix: Report an empty --console flag instead of crashing

---
 cli/src/console.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/console.rs b/cli/src/console.rs
index e24ce59..fd673c5 100644
--- a/cli/src/console.rs
+++ b/cli/src/console.rs
@@ -100,7 +100,14 @@ pub fn setup_console(
     console_spec: Option<&str>,
     signals_tx: Sender<Signal>,
 ) -> io::Result<ConsoleHandles> {
-    let mut console_spec = ConsoleSpec::init(console_spec.unwrap_or("text"));
+    let console_spec = console_spec.unwrap_or("text");
+    if console_spec.is_empty() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Missing console driver in --console flag",
+        ));
+    }
+    let mut console_spec = ConsoleSpec::init(console_spec);
     let handles: ConsoleHandles = match console_spec.driver {
         "sdl" => setup_sdl_console(&mut console_spec, signals_tx)?,
         "st7735s" => setup_st7735s_console(&mut console_spec, signals_tx)?,
-- 
2.43.0


From 6a784b5db909ecce1086bba661b191872849b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 41/47] fix: Escape the names of users and files in the
 addresses of the cloud service

---
 client/src/cloud.rs | 48 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/client/src/cloud.rs b/client/src/cloud.rs
index 112c421..bb19532 100644
--- a/client/src/cloud.rs
+++ b/client/src/cloud.rs
@@ -119,13 +119,33 @@ impl CloudService {
         Ok(Self { api_address: url, client: reqwest::Client::default(), auth_data })
     }
 
-    /// Generates a service URL with the given `path`.
-    fn make_url(&self, path: &str) -> Url {
-        assert!(path.starts_with("api/"));
+    /// Generates a service URL whose path is made of the given `segments`.
+    ///
+    /// The segments are escaped so that names are sent to the server as they are, no matter what
+    /// characters they contain.
+    fn make_url(&self, segments: &[&str]) -> io::Result<Url> {
+        assert_eq!(Some(&"api"), segments.first());
+        let mut path = String::new();
+        for segment in segments {
+            if matches!(*segment, "" | "." | "..") {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("Invalid name '{}'", segment),
+                ));
+            }
+            path.push('/');
+            for b in segment.bytes() {
+                match b {
+                    b'-' | b'.' | b'_' | b'~' => path.push(char::from(b)),
+                    b if b.is_ascii_alphanumeric() => path.push(char::from(b)),
+                    b => path.push_str(&format!("%{:02X}", b)),
+                }
+            }
+        }
         let mut url = self.api_address.clone();
         assert!(url.path().is_empty() || url.path() == "/");
-        url.set_path(path);
-        url
+        url.set_path(&path);
+        Ok(url)
     }
 
     /// Returns the default headers to add to every request.
@@ -157,7 +177,7 @@ impl Service for CloudService {
     async fn signup(&mut self, request: &SignupRequest) -> io::Result<()> {
         let response = self
             .client
-            .post(self.make_url("api/signup"))
+            .post(self.make_url(&["api", "signup"])?)
             .headers(self.default_headers())
             .header("Content-Type", "application/json")
             .body(serde_json::to_vec(&request)?)
@@ -178,7 +198,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .post(self.make_url("api/login"))
+            .post(self.make_url(&["api", "login"])?)
             .headers(self.default_headers())
             .header("Authorization", basic_auth)
             .header("Content-Length", 0)
@@ -205,7 +225,7 @@ impl Service for CloudService {
         let response = {
             let auth_data = Self::require_auth_data(auth_data.as_ref())?;
             self.client
-                .post(self.make_url(&format!("api/users/{}/logout", auth_data.username)))
+                .post(self.make_url(&["api", "users", &auth_data.username, "logout"])?)
                 .headers(self.default_headers())
                 .header("Content-Length", 0)
                 .bearer_auth(auth_data.access_token.as_str())
@@ -233,7 +253,7 @@ impl Service for CloudService {
     async fn get_files(&mut self, username: &str) -> io::Result<GetFilesResponse> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files", username)))
+            .get(self.make_url(&["api", "users", username, "files"])?)
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -252,7 +272,7 @@ impl Service for CloudService {
     async fn get_file(&mut self, username: &str, filename: &str) -> io::Result<Vec<u8>> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["api", "users", username, "files", filename])?)
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -272,7 +292,7 @@ impl Service for CloudService {
         headers.insert("X-EndBASIC-GetReaders", "true".parse().unwrap());
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["api", "users", username, "files", filename])?)
             .headers(headers);
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -312,7 +332,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["api", "users", username, "files", filename])?)
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             .header("X-EndBASIC-PatchContent", "true")
@@ -338,7 +358,7 @@ impl Service for CloudService {
 
         let mut builder = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["api", "users", username, "files", filename])?)
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             // Ensure we have at least one header to go through the header-based request handler.
@@ -367,7 +387,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .delete(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .delete(self.make_url(&["api", "users", username, "files", filename])?)
             .headers(self.default_headers())
             .header("Content-Length", 0)
             .bearer_auth(Self::require_auth_data(auth_data.as_ref())?.access_token.as_str())
-- 
2.43.0


From 2d00da41d4d88f174f6e3579d632a646a6181b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 42/47] fix: Reject names of users that the service would take
 for another name

---
 client/src/cloud.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/src/cloud.rs b/client/src/cloud.rs
index bb19532..030e10d 100644
--- a/client/src/cloud.rs
+++ b/client/src/cloud.rs
@@ -191,6 +191,14 @@ impl Service for CloudService {
     }
 
     async fn login(&mut self, username: &str, password: &str) -> io::Result<LoginResponse> {
+        if username.contains(':') {
+            // Basic authentication cannot tell such names from the password.
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                format!("Invalid username '{}'", username),
+            ));
+        }
+
         // TODO(https://github.com/seanmonstar/reqwest/pull/1096): Replace with a basic_auth()
         // call on the RequestBuilder once it is supported in WASM.
         let basic_auth =
-- 
2.43.0


From aa807c74ddddac17e25fd3ee4f223d660117ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 43/47] fix: Report failures to draw the first contents of the
 SDL window

---
 sdl/src/host.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdl/src/host.rs b/sdl/src/host.rs
index 9d12157..fc01ae5 100644
--- a/sdl/src/host.rs
+++ b/sdl/src/host.rs
@@ -766,9 +766,15 @@ pub(crate) fn run(
     let mut ctx = SharedContext(Rc::from(RefCell::from(ctx)));
 
     let input = NoopInputOps {};
-    let mut console =
-        GraphicsConsole::new(input, ctx.clone(), NoopAudioOps, default_fg_color, default_bg_color)
-            .expect("Console initialization must succeed");
+    let console =
+        GraphicsConsole::new(input, ctx.clone(), NoopAudioOps, default_fg_color, default_bg_color);
+    let mut console = match console {
+        Ok(console) => console,
+        Err(e) => {
+            response_tx.send(Response::Empty(Err(e))).expect("Channel must be alive");
+            return;
+        }
+    };
 
     response_tx.send(Response::Empty(Ok(()))).expect("Channel must be alive");
 
-- 
2.43.0


From 649c1d92f295ef706e42bf689e94dc185373e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 44/47] fix: Upgrade the names of all files in the browser's
 storage at once

---
 web/src/store.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/web/src/store.rs b/web/src/store.rs
index f746265..33a99e1 100644
--- a/web/src/store.rs
+++ b/web/src/store.rs
@@ -153,9 +153,12 @@ impl WebDrive {
             Ok(n) => n,
             Err(e) => return Err(io::Error::other(format!("{:?}", e))),
         };
+
+        // Renaming entries can change the indexes of the others, so collect all keys upfront.
+        let mut keys = vec![];
         for i in 0..n {
-            let key = match self.storage.key(i) {
-                Ok(Some(key)) => key,
+            match self.storage.key(i) {
+                Ok(Some(key)) => keys.push(key),
                 Ok(None) => return Err(io::Error::other("Entry vanished")),
                 Err(e) => {
                     return Err(io::Error::other(format!(
@@ -163,8 +166,10 @@ impl WebDrive {
                         i, e
                     )));
                 }
-            };
+            }
+        }
 
+        for key in keys {
             if let Some(key) = Key::parse(&key) {
                 let canonical = key.canonical();
                 if key != canonical {
-- 
2.43.0


From ed05bd4db4a8ded0cc08a34680ea618b0e051cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 45/47] fix: Refuse to store files that the browser's drive
 would not list

---
 web/src/store.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/web/src/store.rs b/web/src/store.rs
index 33a99e1..a50d4ea 100644
--- a/web/src/store.rs
+++ b/web/src/store.rs
@@ -57,6 +57,12 @@ impl Key {
         Self(format!("{}{}", Key::PREFIX, name.to_ascii_uppercase()))
     }
 
+    /// Creates a new key for a program name, or none if files with that name cannot exist in the
+    /// drive.
+    fn try_for_name(name: &str) -> Option<Self> {
+        if name.to_ascii_uppercase().ends_with(".BAS") { Some(Key::for_name(name)) } else { None }
+    }
+
     /// Returns the canonical form of this key.
     ///
     /// In essence, this converts the file name in the key to uppercase.  This is necessary to
@@ -240,7 +246,9 @@ impl WebDrive {
 #[async_trait(?Send)]
 impl Drive for WebDrive {
     async fn delete(&mut self, name: &str) -> io::Result<()> {
-        let key = Key::for_name(name);
+        let Some(key) = Key::try_for_name(name) else {
+            return Err(io::Error::new(io::ErrorKind::NotFound, "File not found"));
+        };
         let key = key.serialized();
 
         match self.storage.get(key) {
@@ -287,12 +295,20 @@ impl Drive for WebDrive {
     }
 
     async fn get(&self, name: &str) -> io::Result<Vec<u8>> {
-        let entry = self.get_entry(&Key::for_name(name))?;
+        let Some(key) = Key::try_for_name(name) else {
+            return Err(io::Error::new(io::ErrorKind::NotFound, "File not found"));
+        };
+        let entry = self.get_entry(&key)?;
         Ok(entry.content)
     }
 
     async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
-        let key = Key::for_name(name);
+        let Some(key) = Key::try_for_name(name) else {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "Only programs with the .BAS extension can be stored",
+            ));
+        };
 
         // There is no information we care about the old entry so we can replace it all in one go
         // with a new one.
-- 
2.43.0


From 1e2eda3c94fc282e54b659e38720196599c53511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 46/47] fix: Do not start tones that are too long to stop in
 the web

---
 web/src/audio.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/web/src/audio.rs b/web/src/audio.rs
index 842e86b..94bd20d 100644
--- a/web/src/audio.rs
+++ b/web/src/audio.rs
@@ -47,6 +47,9 @@ impl AudioOps for WebAudioOps {
             ));
         }
 
+        let ms = i32::try_from(tone.duration.as_millis())
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Tone duration too long"))?;
+
         // Oscillators are one-shot nodes in the Web Audio API, so we must create one per tone.
         let oscillator = self.context.create_oscillator().map_err(js_value_to_io_error)?;
         oscillator.frequency().set_value(tone.frequency_hz as f32);
@@ -58,8 +61,6 @@ impl AudioOps for WebAudioOps {
             .map_err(js_value_to_io_error)?;
         oscillator.start().map_err(js_value_to_io_error)?;
 
-        let ms = i32::try_from(tone.duration.as_millis())
-            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Tone duration too long"))?;
         do_sleep(ms, ()).await;
 
         oscillator.stop().map_err(js_value_to_io_error)?;
-- 
2.43.0


From 4faec631f4995950686161f2dfb33ccfda75213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:52 +0000
Subject: [PATCH 47/47] fix: Reject reads of array elements with the wrong
 number of subscripts

---
 core/src/vm/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 5cef148..bd4a422 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -218,6 +218,13 @@ impl Vm {
         if info.ndims == 0 {
             return Err(GetGlobalError::IsScalar(key.to_string()));
         }
+        if subscripts.len() != info.ndims {
+            return Err(GetGlobalError::SubscriptOutOfBounds(format!(
+                "Array requires {} subscripts but got {}",
+                info.ndims,
+                subscripts.len()
+            )));
+        }
         let raw = read_raw(&self.context, info.reg);
         let ptr = DatumPtr::from(raw);
         let Some((_, a)) = ptr.resolve_array(&self.heap) else {
-- 
2.43.0

