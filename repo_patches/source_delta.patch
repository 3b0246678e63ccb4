From 2bb9e98887ad5b8e6a92832cae9416971b8f1271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 01/33] fix: type unannotated items by their definition

The type inferred for an unannotated top level value was never connected to
the value's symbol, and items checked later still saw the unchecked
definitions, so uses of such a value were not checked at all.
---
 ticc/src/compiler/typeck.rs | 7 +------
 ticc/src/lib.rs             | 2 ++
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index d205950..6ea5bd3 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -47,12 +47,7 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             let expected_ty = if let Some(name) = i.name() {
                 let span = name.token().span();
                 let def = item.defs.iter().find(|d| d.span == span).unwrap();
-                match &def.kind {
-                    ir::DefKind::Value { type_vars: _, ty } => {
-                        checker.unifier.instantiate(ty, &[])
-                    }
-                    _ => unreachable!(),
-                }
+                checker.lookup_name_opaque(def.symbol)
             } else {
                 checker.allocate(Ty::Error)
             };
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 2610018..bb3de36 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -127,6 +127,8 @@ impl CompilationUnit {
             compiler::kindck::kind_check(&mut item, &defs);
             compiler::typeck::type_check(&mut item, &defs);
             compiler::matchck::check_matches(&mut item, &defs);
+            // make the checked types visible for later items
+            defs.add_item(&item);
             self.items.push(item);
             scope.add_item(&self.src, self.items.last().unwrap(), false);
         }
-- 
2.43.0


From 117ae4275b695473d8b35d5c9fc1196a3936d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/33] fix: instantiate what a definition leaves undetermined
 once

Type variables left over in the type of an unannotated item became a fresh
variable at every use in later items, making the item polymorphic for the type
checker but not for codegen.
---
 ticc/src/compiler/typeck.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index 6ea5bd3..e80dba7 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -54,6 +54,8 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             if let Some(e) = i.expr() {
                 checker.check_expr(e, expected_ty);
             }
+            // other items can only use the value at a single type
+            checker.unifier.default_to_int(expected_ty);
         }
         None => {}
     }
@@ -226,6 +228,24 @@ impl Unifier {
         }
     }
 
+    /// Replaces uninferred variables in a type with int, the same
+    /// instantiation that is used by codegen.
+    fn default_to_int(&mut self, ty: TyIdx) {
+        debug_assert!(self.pending.is_empty(), "cannot default during unification");
+        let ty = self.final_idx(ty);
+        match self.slots[ty.0 as usize] {
+            TySlot::Infer => {
+                self.slots[ty.0 as usize] = TySlot::Ty(Ty::Int);
+            }
+            TySlot::Ty(Ty::Apply(a, b) | Ty::Fn(a, b) | Ty::Folded(a, b)) => {
+                self.default_to_int(a);
+                self.default_to_int(b);
+            }
+            TySlot::Ty(_) => {}
+            TySlot::Next(_) => unreachable!(),
+        }
+    }
+
     fn instantiate(&mut self, ty: &ir::Type, vars: &[(ir::Symbol, TyIdx)]) -> TyIdx {
         match ty {
             ir::Type::Int => self.allocate(Ty::Int),
-- 
2.43.0


From 6b0b03314a51c86149dd39a750ef69a26e02b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 03/33] fix: reject type variables escaping the annotation that
 introduces them

Unifying the type of an outer name with a type variable of an inner annotation
was accepted, and generated code referred to a type variable out of scope.
---
 ticc/src/compiler/ir.rs     | 10 +++++++++
 ticc/src/compiler/typeck.rs | 45 +++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+)

diff --git a/ticc/src/compiler/ir.rs b/ticc/src/compiler/ir.rs
index 4492d6c..8b365e8 100644
--- a/ticc/src/compiler/ir.rs
+++ b/ticc/src/compiler/ir.rs
@@ -138,3 +138,13 @@ pub(crate) enum Type {
     Infer,
     Folded(Box<Type>, Box<Type>),
 }
+
+impl Type {
+    pub(crate) fn mentions(&self, symbol: Symbol) -> bool {
+        match self {
+            Type::Named(s, args) => *s == symbol || args.iter().any(|a| a.mentions(symbol)),
+            Type::Fn(a, b) | Type::Folded(a, b) => a.mentions(symbol) || b.mentions(symbol),
+            Type::Int | Type::Bool | Type::String | Type::Error | Type::Infer => false,
+        }
+    }
+}
diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index e80dba7..352c2bb 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -13,6 +13,7 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         symbol_types: HashMap::new(),
         diagnostics: &mut item.diagnostics,
         insts: HashMap::new(),
+        rigid_scopes: Vec::new(),
     };
     let mut symbol_vars = HashMap::new();
     for r in item.refs.iter().copied().chain(item.defs.iter().map(|d| d.to_ref())) {
@@ -59,6 +60,9 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         }
         None => {}
     }
+    for scope in std::mem::take(&mut checker.rigid_scopes) {
+        checker.check_escape(scope, &item.defs);
+    }
     for (&node, &ty) in &checker.expr_types {
         item.types.insert(node, checker.unifier.to_ir(ty));
     }
@@ -331,6 +335,15 @@ struct TypeChecker<'a> {
     symbol_types: HashMap<ir::Symbol, NameTy<'a>>,
     diagnostics: &'a mut Vec<RawDiagnostic>,
     insts: HashMap<NodeId, Vec<TyIdx>>,
+    rigid_scopes: Vec<RigidScope<'a>>,
+}
+
+/// Part of the source (value of a let expression) where type variables
+/// introduced by an annotation are in scope.
+struct RigidScope<'a> {
+    name_span: Span,
+    value_span: Span,
+    type_vars: &'a [ir::Symbol],
 }
 
 impl<'a> TypeChecker<'a> {
@@ -494,6 +507,16 @@ impl<'a> TypeChecker<'a> {
                 } else {
                     self.allocate(Ty::Error)
                 };
+                if let (Some(name), Some(value)) = (expr.name(), expr.value()) {
+                    let symbol = self.symbols.get(&name.syntax().id());
+                    if let Some(NameTy::Inst(_, type_vars)) = symbol.and_then(|s| self.symbol_types.get(s)) {
+                        self.rigid_scopes.push(RigidScope {
+                            name_span: name.token().span(),
+                            value_span: value.syntax().span(),
+                            type_vars,
+                        });
+                    }
+                }
                 if let Some(expr) = expr.value() {
                     self.check_expr(expr, bound_ty);
                 }
@@ -618,6 +641,28 @@ impl<'a> TypeChecker<'a> {
         }
     }
 
+    /// Reports an error if a type variable ended up in a type of a name that
+    /// is defined outside of that variable's scope.
+    fn check_escape(&mut self, scope: RigidScope<'_>, defs: &[ir::Def]) {
+        for def in defs {
+            let outside = def.span.end() <= scope.value_span.start() || scope.value_span.end() <= def.span.start();
+            if !outside {
+                continue;
+            }
+            if let Some(&NameTy::Infer(ty)) = self.symbol_types.get(&def.symbol) {
+                let ty = self.unifier.to_ir(ty);
+                if let Some(&var) = scope.type_vars.iter().find(|&&v| ty.mentions(v)) {
+                    self.diagnostics.push(RawDiagnostic {
+                        message: err_fmt!("type variable ", var, " escapes into the type of ", def.symbol),
+                        severity: Severity::Error,
+                        span: scope.name_span,
+                    });
+                    return;
+                }
+            }
+        }
+    }
+
     fn check_operands(&mut self, expr: node::BinaryExpr<'_>, ty: TyIdx) {
         if let Some(e) = expr.lhs() {
             self.check_expr(e, ty);
-- 
2.43.0


From 5cf230eac5c4106b7ee4bbffd691ba408434aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 04/33] fix: keep ill-kinded types out of type checking

Kind check did not clean the function type of constructors, nor the definitions
used for checking the same item, so instantiating such a type could apply a
non-type and panic.
---
 ticc/src/compiler/kindck.rs | 3 ++-
 ticc/src/lib.rs             | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 01710f8..8b57953 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -9,12 +9,13 @@ pub(crate) fn kind_check(item: &mut ir::Item, defs: &DefSet) {
             ir::DefKind::Value { ty, .. } => {
                 check_ty(defs, ty)
             }
-            ir::DefKind::Ctor { fields, .. } => {
+            ir::DefKind::Ctor { fields, fn_ty, .. } => {
                 for field in fields {
                     if let ir::Field::Type(ty) = field {
                         check_ty(defs, ty);
                     }
                 }
+                check_ty(defs, fn_ty);
             }
             ir::DefKind::Type { .. } |
             ir::DefKind::Module { .. } => {}
diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index bb3de36..f5b4171 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -125,6 +125,8 @@ impl CompilationUnit {
             defs.add_item(&item);
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
+            // make types cleaned by kind check visible for type check
+            defs.add_item(&item);
             compiler::typeck::type_check(&mut item, &defs);
             compiler::matchck::check_matches(&mut item, &defs);
             // make the checked types visible for later items
-- 
2.43.0


From 9377ff0b8a8ae61bf60b3af0d877e8c0b4cd6630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/33] fix: allow constructors with any number of fields in
 evaluators

Values with ten or more fields were accepted by the compiler but made every
evaluator panic when they were constructed or printed.
---
 ticc-eval/src/tagged.rs | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/ticc-eval/src/tagged.rs b/ticc-eval/src/tagged.rs
index aea4cc3..f87ec55 100644
--- a/ticc-eval/src/tagged.rs
+++ b/ticc-eval/src/tagged.rs
@@ -1,47 +1,27 @@
-use std::{convert::TryInto, rc::Rc};
+use std::rc::Rc;
 use ticc_core::ir;
 use crate::Value;
 
 #[derive(Clone)]
 pub struct Tagged<F> {
-    alloc: Rc<TaggedAlloc<[Value<F>]>>,
-}
-
-struct TaggedAlloc<T: ?Sized> {
     tag: ir::Name,
-    values: T,
+    values: Rc<[Value<F>]>,
 }
 
 impl<F> Tagged<F> {
     pub(crate) fn from_array<const N: usize>(tag: ir::Name, arr: [Value<F>; N]) -> Tagged<F> {
-        let alloc = Rc::new(TaggedAlloc {
-            tag,
-            values: arr,
-        });
-        Tagged { alloc }
+        Tagged { tag, values: Rc::new(arr) }
     }
 
     pub(crate) fn from_vec(tag: ir::Name, values: Vec<Value<F>>) -> Tagged<F> {
-        match values.len() {
-            0 => Tagged::from_array::<0>(tag, []),
-            1 => Tagged::from_array::<1>(tag, values.try_into().unwrap()),
-            2 => Tagged::from_array::<2>(tag, values.try_into().unwrap()),
-            3 => Tagged::from_array::<3>(tag, values.try_into().unwrap()),
-            4 => Tagged::from_array::<4>(tag, values.try_into().unwrap()),
-            5 => Tagged::from_array::<5>(tag, values.try_into().unwrap()),
-            6 => Tagged::from_array::<6>(tag, values.try_into().unwrap()),
-            7 => Tagged::from_array::<7>(tag, values.try_into().unwrap()),
-            8 => Tagged::from_array::<8>(tag, values.try_into().unwrap()),
-            9 => Tagged::from_array::<9>(tag, values.try_into().unwrap()),
-            other => panic!("unsupported tagged value size: {}", other),
-        }
+        Tagged { tag, values: values.into() }
     }
 
     pub fn tag(&self) -> ir::Name {
-        self.alloc.tag
+        self.tag
     }
 
     pub fn fields(&self) -> &[Value<F>] {
-        &self.alloc.values
+        &self.values
     }
 }
-- 
2.43.0


From a5cb6d4db2ac4bdb6ba05f09e6182264f73d91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 06/33] fix: track pointers in heap objects with more than 64
 fields

---
 ticc-eval/src/heap.rs | 62 +++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 49424e1..2633f50 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -34,11 +34,16 @@ impl Heap {
     }
 
     pub(crate) fn alloc_object(&mut self, tag: u64, fields: u32) -> ObjAlloc<'_> {
-        let (addr, header, bytes) = self.raw_alloc(tag, fields * 8);
+        let ptr_words = extra_ptr_words(fields);
+        let (addr, header, bytes) = self.raw_alloc(tag, (fields + ptr_words) * 8);
+        header.ptr_words = ptr_words as u16;
+        let (fields, extra_ptrs) = bytes_to_words_mut(bytes).split_at_mut(fields as usize);
+        extra_ptrs.fill(0);
         ObjAlloc {
             addr,
             header,
-            fields: bytes_to_words_mut(bytes),
+            fields,
+            extra_ptrs,
         }
     }
 
@@ -53,6 +58,7 @@ impl Heap {
         *self.bytes.obj_header(addr) = Header {
             size: total_size as u32,
             mark: 0,
+            ptr_words: 0,
             ptrs: 0,
             tag,
         };
@@ -87,14 +93,17 @@ impl Heap {
             retained.push(current);
             retained_bytes += header.size;
             current.0 += u64::from(header.size);
-            if header.ptrs != 0 {
+            if header.has_ptrs() {
+                let (fields, extra_ptrs) = header.split_fields(bytes_to_words(bytes));
                 let ptrs = header.ptrs;
-                let fields = bytes_to_words(bytes);
-                pending.extend(fields.iter().copied());
-                for (i, field) in pending.drain(..).enumerate() {
-                    if ptrs & (1 << i) != 0 {
-                        self.bytes.obj_header(Addr(field)).mark = 1;
-                    }
+                pending.extend(fields
+                    .iter()
+                    .copied()
+                    .enumerate()
+                    .filter(|&(i, _)| is_ptr(ptrs, extra_ptrs, i))
+                    .map(|(_, field)| Addr(field)));
+                for field in pending.drain(..) {
+                    self.bytes.obj_header(field).mark = 1;
                 }
             }
         }
@@ -114,9 +123,11 @@ impl Heap {
             self.bytes.raw.copy_within((addr.0 as usize)..((addr.0 + u64::from(size)) as usize), place_at);
             self.move_dst[(addr.0 / u64::from(Header::SIZE)) as usize] = new_addr;
             let (header, fields) = self.bytes.obj_fields_mut(new_addr);
-            if header.ptrs != 0 {
+            if header.has_ptrs() {
+                let count = fields.len() - usize::from(header.ptr_words);
+                let (fields, extra_ptrs) = fields.split_at_mut(count);
                 for (i, ptr) in fields.into_iter().enumerate() {
-                    if header.ptrs & (1 << i) != 0 {
+                    if is_ptr(header.ptrs, extra_ptrs, i) {
                         *ptr = self.move_dst[(*ptr / u64::from(Header::SIZE)) as usize].0;
                     }
                 }
@@ -131,11 +142,12 @@ impl Heap {
     pub(crate) fn obj_with_fields(&self, addr: Addr) -> (u64, impl Iterator<Item = Value> + '_) {
         let (header, fields) = self.bytes.obj_fields(addr);
         let ptrs = header.ptrs;
+        let (fields, extra_ptrs) = header.split_fields(fields);
         let fields = fields
             .iter()
             .copied()
             .enumerate()
-            .map(move |(i, v)| if ptrs & (1 << i) != 0 {
+            .map(move |(i, v)| if is_ptr(ptrs, extra_ptrs, i) {
                 Value::Ptr(Addr(v))
             } else {
                 Value::Int(v)
@@ -219,16 +231,29 @@ fn round_up(bytes: u32) -> u32 {
     (bytes + 7) / 8 * 8
 }
 
+// Header can mark pointers among the first 64 fields, objects with more fields
+// have additional words after the fields to mark pointers among the rest.
+fn extra_ptr_words(fields: u32) -> u32 {
+    (fields.saturating_sub(64) + 63) / 64
+}
+
+fn is_ptr(ptrs: u64, extra_ptrs: &[u64], idx: usize) -> bool {
+    let word = if idx < 64 { ptrs } else { extra_ptrs[idx / 64 - 1] };
+    word & (1 << (idx % 64)) != 0
+}
+
 pub(crate) struct ObjAlloc<'a> {
     pub(crate) addr: Addr,
     header: &'a mut Header,
     fields: &'a mut [u64],
+    extra_ptrs: &'a mut [u64],
 }
 
 impl ObjAlloc<'_> {
     pub(crate) fn put_ptr(&mut self, idx: usize, addr: Addr) {
         self.fields[idx] = addr.0;
-        self.header.ptrs |= 1 << idx;
+        let word = if idx < 64 { &mut self.header.ptrs } else { &mut self.extra_ptrs[idx / 64 - 1] };
+        *word |= 1 << (idx % 64);
     }
 
     pub(crate) fn put_int(&mut self, idx: usize, value: u64) {
@@ -244,7 +269,8 @@ pub(crate) struct BytesAlloc<'a> {
 #[repr(C)]
 struct Header {
     size: u32,
-    mark: u32,
+    mark: u16,
+    ptr_words: u16,
     ptrs: u64,
     tag: u64,
 }
@@ -252,6 +278,14 @@ struct Header {
 impl Header {
     const SIZE: u32 = std::mem::size_of::<Header>() as u32;
 
+    fn has_ptrs(&self) -> bool {
+        self.ptrs != 0 || self.ptr_words != 0
+    }
+
+    fn split_fields<'a>(&self, words: &'a [u64]) -> (&'a [u64], &'a [u64]) {
+        words.split_at(words.len() - usize::from(self.ptr_words))
+    }
+
     const _ASSERT_ALIGNED: () = assert!(Self::SIZE % 8 == 0);
 
     // does not have to be true, just a note to know what the size is
-- 
2.43.0


From 73604ec7d71d21fdd964ea21bd951e7abef62894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 07/33] fix: make room before allocating in bytecode evaluator

---
 ticc-eval/src/bytecode.rs | 18 +++++++++++++++---
 ticc-eval/src/heap.rs     | 10 +++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 00b61e1..afbeb57 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -260,6 +260,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
+                    self.reserve(Heap::object_size(fields));
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -327,6 +328,7 @@ impl Runtime {
                     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
                     concat.extend(bytes1);
                     concat.extend(bytes2);
+                    self.reserve(Heap::bytes_size(concat.len() as u32));
                     let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -335,6 +337,7 @@ impl Runtime {
                 }
                 Op::StringFromChar => {
                     let x = self.stack.pop_int();
+                    self.reserve(Heap::bytes_size(1));
                     let obj = self.heap.alloc_bytes(1 | STRING_TAG, 1);
                     obj.bytes[0] = x as u8;
                     self.stack.push(Value::Ptr(obj.addr));
@@ -344,6 +347,7 @@ impl Runtime {
                 Op::IntToString => {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
+                    self.reserve(Heap::bytes_size(s.len() as u32));
                     let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
@@ -360,6 +364,7 @@ impl Runtime {
                     let bytes = bytes.get(start..).unwrap_or(&[]);
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
+                    self.reserve(Heap::bytes_size(bytes.len() as u32));
                     let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -376,15 +381,22 @@ impl Runtime {
 
     fn maybe_gc(&mut self) {
         if self.heap.allocated() > self.heap.capacity() / 2 {
-            self.gc();
+            self.gc(0);
         }
     }
 
-    fn gc(&mut self) {
-        self.heap.collect(self.stack.ptrs()
+    fn reserve(&mut self, bytes: usize) {
+        if self.heap.free_space() < bytes {
+            self.gc(bytes as u32);
+        }
+    }
+
+    fn gc(&mut self, ensure_free: u32) {
+        self.heap.collect_and_grow(self.stack.ptrs()
             .chain(self.consts.iter_mut())
             .chain(std::iter::once(&mut self.bools.t))
             .chain(std::iter::once(&mut self.bools.f)),
+            ensure_free,
         );
     }
 }
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 2633f50..dfbb634 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -112,7 +112,7 @@ impl Heap {
             .max((ensure_free + retained_bytes) as usize);
         if min_capacity > self.bytes.raw.len() {
             self.bytes.raw.ensure_size(min_capacity);
-            self.move_dst.resize(min_capacity / (Header::SIZE as usize), Addr(0));
+            self.move_dst.resize(self.bytes.raw.len() / (Header::SIZE as usize), Addr(0));
         }
         let mut new_bump = self.bytes.raw.len();
         for addr in retained.into_iter().rev() {
@@ -160,6 +160,14 @@ impl Heap {
         (header.tag, bytes)
     }
 
+    pub(crate) fn object_size(fields: u32) -> usize {
+        (Header::SIZE + (fields + extra_ptr_words(fields)) * 8) as usize
+    }
+
+    pub(crate) fn bytes_size(bytes: u32) -> usize {
+        (Header::SIZE + round_up(bytes)) as usize
+    }
+
     pub(crate) fn allocated(&self) -> usize {
         self.bytes.raw.len() - self.bump
     }
-- 
2.43.0


From 8831b32667418ad6b9193b5e82d9c3d714a76f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 08/33] fix: run enough steps for gcd of any two integers

---
 ticc/src/std/int.tic | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/std/int.tic b/ticc/src/std/int.tic
index c025fc3..ccbdb77 100644
--- a/ticc/src/std/int.tic
+++ b/ticc/src/std/int.tic
@@ -60,7 +60,7 @@ export let gcd : int -> int -> int =
                 GcdState b (a % b)
         end;
     \a -> \b ->
-        match i.iterate 65 stepState (GcdState a b) with
+        match i.iterate 92 stepState (GcdState a b) with
         | GcdState x _ -> x
         end;
 
-- 
2.43.0


From 00fe6c848ab9b702963d81a1e664ab7b5d23168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 09/33] fix: complete names of the expected kind after a module
 name

---
 ticc/src/api/completion.rs   | 14 +++++++-------
 ticc/src/compiler/resolve.rs |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ticc/src/api/completion.rs b/ticc/src/api/completion.rs
index 362d70a..be30834 100644
--- a/ticc/src/api/completion.rs
+++ b/ticc/src/api/completion.rs
@@ -78,14 +78,14 @@ fn add_keys_from<T>(completions: &mut Vec<Completion>, map: &HashMap<&str, T>) {
 }
 
 fn add_exports(completions: &mut Vec<Completion>, unit: &CompleteUnit, for_usage: resolve::NameUsage) {
-    for (name, def) in &unit.props.exports {
-        let kind = match def.kind {
-            ir::DefKind::Value {.. } => resolve::NameUsage::Value,
-            ir::DefKind::Ctor { .. } => resolve::NameUsage::Ctor,
-            ir::DefKind::Type { .. } => resolve::NameUsage::Type,
-            ir::DefKind::Module { .. } => resolve::NameUsage::Module,
+    for name in unit.props.exports.keys() {
+        let usage = match name.namespace {
+            crate::Namespace::Value => resolve::NameUsage::Value,
+            crate::Namespace::Pattern => resolve::NameUsage::Ctor,
+            crate::Namespace::Type => resolve::NameUsage::Type,
+            crate::Namespace::Module => resolve::NameUsage::Module,
         };
-        if kind == for_usage {
+        if usage == for_usage {
             completions.push(Completion { name: name.name.clone() })
         }
     }
diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 2f59acf..8bb64bc 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -321,7 +321,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -346,7 +346,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
@@ -411,7 +411,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -436,7 +436,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
-- 
2.43.0


From 22a82faf58f4d6a2cc04d3cac4316cef5c4b7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 10/33] fix: using a constructor uses its own type

---
 ticc/src/lint/unused.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 3a50eac..fc1d193 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -10,10 +10,6 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
         for r in &item.refs {
             used.insert(r.symbol);
         }
-        let type_def = item.defs
-            .iter()
-            .find(|d| matches!(d.kind, DefKind::Type { is_var: false, ..}))
-            .map(|d| d.symbol);
         for d in &item.defs {
             if let DefKind::Type { is_var: true, .. } = d.kind {
                 used.insert(d.symbol);
@@ -21,10 +17,8 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if d.vis == Visibility::Export {
                 used.insert(d.symbol);
             }
-            if let DefKind::Ctor { .. } = d.kind {
-                if let Some(type_sym) = type_def {
-                    deps.insert(d.symbol, type_sym);
-                }
+            if let DefKind::Ctor { type_symbol, .. } = d.kind {
+                deps.insert(d.symbol, type_symbol);
             }
         }
     }
-- 
2.43.0


From 7c037bc3236fc81f00ff06d34ec21944ab763fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 11/33] fix: only names of definitions count as their position

---
 ticc/src/api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index cd3bd06..5dcfe9c 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -28,7 +28,7 @@ fn find_def_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Def> {
             continue;
         }
         for def in &item.defs {
-            if def.span.start() <= pos && pos <= def.span.end() {
+            if def.has_name && def.span.start() <= pos && pos <= def.span.end() {
                 return Some(&def);
             }
         }
-- 
2.43.0


From 7bb7e2f4bc29807ba22384a11c77946895a48f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 12/33] fix: print names of definitions from other modules

---
 ticc/src/api.rs        | 16 ++++++++++++++++
 ticc/src/api/errors.rs | 10 +---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index 5dcfe9c..cef620d 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -52,6 +52,22 @@ fn find_def(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&ir::De
     None
 }
 
+// Definition's name, or None if no module visible from this one has it
+fn find_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&str> {
+    if let Some(def) = find_def(compilation, symbol) {
+        return Some(&compilation.src[def.span.source_range()]);
+    }
+    compilation.items
+        .iter()
+        .flat_map(|item| &item.defs)
+        .find_map(|def| match &def.kind {
+            ir::DefKind::Module { unit } if unit.props.types.contains_key(&symbol) => {
+                find_name(&unit.props.unit, symbol)
+            }
+            _ => None,
+        })
+}
+
 struct TypePrinter<'a> {
     compilation: &'a CompilationUnit,
     name_cache: HashMap<ir::Symbol, &'a str>,
diff --git a/ticc/src/api/errors.rs b/ticc/src/api/errors.rs
index cc56e2c..5d0c3e3 100644
--- a/ticc/src/api/errors.rs
+++ b/ticc/src/api/errors.rs
@@ -50,15 +50,7 @@ fn format_message(
                 type_printer.print_type(ty, &mut message);
             }
             RawSegment::Symbol(sym) => {
-                let def = match super::find_def(compilation, *sym) {
-                    Some(d) => d,
-                    None => {
-                        message.push_str("WTF");
-                        continue;
-                    }
-                };
-                let name = &compilation.src[def.span.source_range()];
-                message.push_str(name);
+                message.push_str(super::find_name(compilation, *sym).unwrap_or("???"));
             }
         }
     }
-- 
2.43.0


From 257b15e0457a6990cf74959f6901d33d46becc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 13/33] fix: no information on expressions that were never
 checked

---
 ticc/src/api/info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 8f598d1..487e370 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -48,7 +48,7 @@ fn def_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
 
 fn expr_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
     let (item, expr) = find_expr_at_pos(compilation, pos)?;
-    let ty = &item.types[&expr.syntax().id()];
+    let ty = item.types.get(&expr.syntax().id())?;
     let mut type_printer = super::TypePrinter::new(compilation);
     let mut doc = String::new();
     type_printer.print_type(&ty, &mut doc);
-- 
2.43.0


From 7f41ba0e11c671bebf3ba594c213c50ac0e0b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 14/33] fix: answer requests about documents that are not open

---
 ticc-lsp/src/handlers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 9a70bfd..3381b01 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -10,7 +10,7 @@ fn semantic_tokens(
     params: lsp_types::SemanticTokensParams,
 ) -> Option<lsp_types::SemanticTokensResult> {
     let key = FileKey::from(params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let tokens = crate::semantic_tokens::get_semantic_tokens(&mut compilation.unit);
     Some(lsp_types::SemanticTokensResult::Tokens(lsp_types::SemanticTokens {
         result_id: None,
@@ -23,7 +23,7 @@ fn go_to_definition(
     params: lsp_types::GotoDefinitionParams,
 ) -> Option<lsp_types::GotoDefinitionResponse> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     if let Some(range) = crate::go_to_definition::find_definition(&mut compilation.unit, pos) {
         Some(lsp_types::GotoDefinitionResponse::Scalar(lsp_types::Location {
@@ -40,7 +40,7 @@ fn find_references(
     params: lsp_types::ReferenceParams,
 ) -> Option<Vec<lsp_types::Location>> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     let references = crate::find_references::find_references(&mut compilation.unit, pos)?;
     let mut references = references
@@ -66,7 +66,7 @@ fn hover(
     params: lsp_types::HoverParams,
 ) -> Option<lsp_types::Hover> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     crate::hover::hover(&mut compilation.unit, pos)
 }
@@ -76,7 +76,7 @@ fn completions(
     params: lsp_types::CompletionParams,
 ) -> Option<lsp_types::CompletionResponse> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     crate::completions::completions(&mut compilation.unit, pos)
 }
-- 
2.43.0


From 40ebe177184363568bf55e36c8a497526c83a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 15/33] fix: apply the last of a notification's content changes

---
 ticc-lsp/src/handlers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 3381b01..b968ae1 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -95,7 +95,10 @@ fn on_change(
     params: lsp_types::DidChangeTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.files.set(key.clone(), &params.content_changes[0].text);
+    let Some(change) = params.content_changes.last() else {
+        return;
+    };
+    server.files.set(key.clone(), &change.text);
     on_file_update(server, key);
 }
 
-- 
2.43.0


From d28b399aafdc71c3db82a59b2d153c24a01cd169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 16/33] fix: respond to unsupported requests

---
 ticc-lsp/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ff5136f..742956c 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -167,6 +167,11 @@ impl Handlers {
             }
         }
         eprintln!("unhandled request: {:?}", request.method);
+        server.sender.send(Message::Response(lsp_server::Response::new_err(
+            request.id,
+            lsp_server::ErrorCode::MethodNotFound as i32,
+            format!("unhandled request: {}", request.method),
+        ))).unwrap();
         Ok(())
     }
 
-- 
2.43.0


From 2bc75524448c600f646191f250d27d829b4a3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 17/33] fix: clamp positions to the end of their own line

---
 ticc-lsp/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 87d146d..e1d2671 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -101,7 +101,7 @@ impl ToTicc for Position {
     type TiccRepr = Pos;
 
     fn to_ticc(self, translator: &mut LocationTranslator<'_>) -> Self::TiccRepr {
-        while !translator.complete && translator.line_starts.len() <= self.line as usize {
+        while !translator.complete && translator.line_starts.len() <= self.line as usize + 1 {
             translator.find_next_line_position();
         }
         let current = translator.line_starts.get(self.line as usize).copied();
-- 
2.43.0


From d6f1e5e3fd9f9316893b8add35850107763a9a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 18/33] fix: a module imported twice is not a cycle when it
 cannot be read

---
 ticc-lsp/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 742956c..11a8625 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -414,9 +414,10 @@ impl ModuleResolver for CompilationModuleResolver {
 
         match self.dependencies.lock().unwrap().entry(key.clone()) {
             Entry::Occupied(e) => match e.get().unit.clone() {
-                None => {
+                None if source.content.is_ok() => {
                     return Err(ticc::ImportError::ImportCycle);
                 }
+                None => {}
                 Some(unit) => {
                     return Ok(unit.clone())
                 }
-- 
2.43.0


From 6efecac74383566ad7b78e890002e040af4cfdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 19/33] fix: detect import cycles through the open document

---
 ticc-lsp/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 11a8625..ef1e6f0 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -374,7 +374,13 @@ impl Compilation {
             let source_text = source.content.ok().unwrap_or_default();
 
             self.source_version = source.version;
-            self.dependencies.lock().unwrap().clear();
+            let mut dependencies = self.dependencies.lock().unwrap();
+            dependencies.clear();
+            dependencies.insert(self.key.clone(), Dependency {
+                unit: None,
+                source_version: source.version,
+            });
+            drop(dependencies);
             self.unit = CompilationUnit::new(
                 &source_text,
                 ticc::Options::default(),
-- 
2.43.0


From 1990740252245c648050d90b3d1981137b95b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 20/33] fix: recognise a module imported by different paths

---
 ticc/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index f23bb65..1c16aa3 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -226,6 +226,7 @@ impl FileModuleResolver {
             props: Default::default(),
         });
         let child = Arc::new(ChildResolver {
+            identity: file_identity(&path),
             path,
             root: resolver.clone(),
             parent: None,
@@ -234,8 +235,14 @@ impl FileModuleResolver {
     }
 }
 
+// Same for all paths to the same file
+fn file_identity(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_owned())
+}
+
 struct ChildResolver {
     path: PathBuf,
+    identity: PathBuf,
     root: Arc<FileModuleResolver>,
     parent: Option<Arc<ChildResolver>>,
 }
@@ -254,9 +261,10 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
+        let identity = file_identity(&path);
         let mut resolver = &*self;
         loop {
-            if resolver.path == path {
+            if resolver.identity == identity {
                 return Err(ticc::ImportError::ImportCycle);
             }
             match &resolver.parent {
@@ -267,7 +275,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let root = self.root.props.lock().unwrap();
-            if let Some(unit) = root.cache.get(&path).cloned() {
+            if let Some(unit) = root.cache.get(&identity).cloned() {
                 return Ok(unit);
             }
         }
@@ -279,6 +287,7 @@ impl ModuleResolver for ChildResolver {
 
         let child_resolver = Arc::new(ChildResolver {
             path: path.clone(),
+            identity: identity.clone(),
             root: self.root.clone(),
             parent: Some(self.clone()),
         });
@@ -293,7 +302,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let mut root = self.root.props.lock().unwrap();
-            root.cache.insert(path.clone(), unit.clone());
+            root.cache.insert(identity, unit.clone());
         }
 
         if diagnostics.iter().any(|d| d.severity == Severity::Error) {
-- 
2.43.0


From c586367caef02174ac21b5dcf8f19c31591f6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 21/33] fix: types without a name do not break analysis of
 their constructors

---
 ticc/src/compiler.rs         | 6 ++++++
 ticc/src/compiler/kindck.rs  | 5 ++++-
 ticc/src/compiler/matchck.rs | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ticc/src/compiler.rs b/ticc/src/compiler.rs
index 6b868e5..7d4e9ec 100644
--- a/ticc/src/compiler.rs
+++ b/ticc/src/compiler.rs
@@ -127,4 +127,10 @@ impl DefSet {
     pub(crate) fn lookup(&self, symbol: ir::Symbol) -> &ir::Def {
         &self.defs[&symbol]
     }
+
+    /// Same as `lookup`, but for symbols that might not have a definition,
+    /// like types that are missing their names.
+    pub(crate) fn try_lookup(&self, symbol: ir::Symbol) -> Option<&ir::Def> {
+        self.defs.get(&symbol)
+    }
 }
diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 8b57953..4665972 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -38,7 +38,10 @@ fn check_ty(defs: &DefSet, ty: &mut ir::Type) {
             for t in ts.iter_mut() {
                 check_ty(defs, t);
             }
-            let def = defs.lookup(*s);
+            let Some(def) = defs.try_lookup(*s) else {
+                *ty = ir::Type::Error;
+                return;
+            };
             match def.kind {
                 ir::DefKind::Type { param_count, .. } => {
                     if ts.len() != param_count {
diff --git a/ticc/src/compiler/matchck.rs b/ticc/src/compiler/matchck.rs
index c2fbb4b..b6e3b98 100644
--- a/ticc/src/compiler/matchck.rs
+++ b/ticc/src/compiler/matchck.rs
@@ -56,7 +56,7 @@ fn check(
             return None;
         }
     };
-    let def = defs.lookup(ty_symbol);
+    let def = defs.try_lookup(ty_symbol)?;
     let all_ctors = match &def.kind {
         ir::DefKind::Type { ctors: ir::Ctors::List(ctors), .. } => ctors.clone(),
         ir::DefKind::Type { ctors: ir::Ctors::Opaque, .. } => {
-- 
2.43.0


From 637aa15e02e125c0bc47790fe6a3e1cdf0b3249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 22/33] fix: answers about positions do not depend on what was
 analysed before

---
 ticc/src/api/info.rs       | 2 +-
 ticc/src/api/navigation.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 487e370..c7ce10d 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -8,7 +8,7 @@ pub struct Info {
 }
 
 pub(crate) fn info_at(compilation: &mut CompilationUnit, pos: Pos) -> Option<Info> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     def_info(compilation, pos).or_else(|| expr_info(compilation, pos))
 }
 
diff --git a/ticc/src/api/navigation.rs b/ticc/src/api/navigation.rs
index 198ea87..acbd7c5 100644
--- a/ticc/src/api/navigation.rs
+++ b/ticc/src/api/navigation.rs
@@ -2,7 +2,7 @@ use crate::{CompilationUnit, Pos, Span};
 use crate::compiler::ir;
 
 pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Option<Span> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     if let Some(r) = super::find_ref_at(compilation, pos) {
         super::find_def(compilation, r.symbol).map(|def| def.span)
     } else if let Some(def) = super::find_def_at(compilation, pos) {
@@ -16,7 +16,7 @@ pub(crate) fn find_definition(compilation: &mut CompilationUnit, pos: Pos) -> Op
 /// Returns `Some(vec![])` when there's a symbol at the given position, but
 /// there no references to that symbol in the code.
 pub(crate) fn find_references(compilation: &mut CompilationUnit, pos: Pos) -> Option<Vec<Span>> {
-    compilation.compile_up_to(pos.source_pos() + 1);
+    compilation.compile_to_end();
     let symbol = super::find_def_or_ref_at(compilation, pos)?.symbol;
     let (item, def) = compilation.items
         .iter()
-- 
2.43.0


From a7733c4491cb622558b2675beb47676fc619b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 23/33] fix: an imported name is unused only if nothing that it
 names is used

A name may stand for a type and a constructor. There was a warning for each of
them, even if the other one was used.
---
 ticc/src/lint/unused.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index fc1d193..c46a24a 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -24,6 +24,15 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
     }
     let extras = used.iter().filter_map(|s| deps.get(s).copied()).collect::<Vec<_>>();
     used.extend(extras);
+    // an imported name may stand for several symbols
+    let names_in_use = compilation
+        .items
+        .iter()
+        .flat_map(|item| &item.defs)
+        .filter(|d| used.contains(&d.symbol))
+        .map(|d| d.span)
+        .collect::<HashSet<_>>();
+    let mut reported = HashSet::new();
     let mut lints = Vec::new();
     for item in &compilation.items {
         for d in &item.defs {
@@ -32,7 +41,10 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
                 continue;
             }
             let name = &compilation.src[d.span.source_range()];
-            if !used.contains(&d.symbol) && name.chars().next() != Some('_') {
+            if !names_in_use.contains(&d.span)
+                && name.chars().next() != Some('_')
+                && reported.insert(d.span)
+            {
                 lints.push(RawDiagnostic {
                     span: d.span,
                     severity: Severity::Warning,
-- 
2.43.0


From 7df0cf3799b0ba876f3183061f40e74a3643eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 24/33] fix: the bytecode evaluator evaluated arguments before
 the function

---
 ticc-eval/src/compile.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/ticc-eval/src/compile.rs b/ticc-eval/src/compile.rs
index f8869f9..21ca365 100644
--- a/ticc-eval/src/compile.rs
+++ b/ticc-eval/src/compile.rs
@@ -132,6 +132,13 @@ impl FunctionCompiler<'_> {
                 self.pick_var(*n);
             }
             ir::Expr::Call(f, args) => {
+                // function is evaluated before its arguments, but call needs
+                // it above them - getting a name cannot be told apart, so it
+                // does not need a slot under the arguments
+                let needs_slot = !is_name(f);
+                if needs_slot {
+                    self.compile_expr(f, false);
+                }
                 for arg in args {
                     self.compile_expr(arg, false);
                 }
@@ -153,12 +160,19 @@ impl FunctionCompiler<'_> {
                             break 'compile_call;
                         }
                     }
-                    self.compile_expr(f, false);
+                    if needs_slot {
+                        self.op(Op::Pick(args.len()), 1);
+                    } else {
+                        self.compile_expr(f, false);
+                    }
                     // call will push return address to stack - add and remove it for max stack size tracking
                     self.change_stack_size(1);
                     self.change_stack_size(-1);
                     // args+fn get replaced with result
                     self.op(Op::Call, -(args.len() as isize));
+                    if needs_slot {
+                        self.op(Op::SwapPop, -1);
+                    }
                 }
             }
             ir::Expr::If(c, t, e) => {
@@ -435,6 +449,14 @@ fn free_variables(expr: &ir::Expr) -> Vec<ir::Name> {
     used
 }
 
+fn is_name(expr: &ir::Expr) -> bool {
+    match expr {
+        ir::Expr::Name(_) => true,
+        ir::Expr::PiApply(e, _) => is_name(e),
+        _ => false,
+    }
+}
+
 fn unwrap_pis(mut expr: &ir::Expr) -> &ir::Expr {
     while let ir::Expr::Pi(_, e) = expr {
         expr = e;
-- 
2.43.0


From 08a70c01a91be27e7b0567bca1ea0ac6a6ea12ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 25/33] fix: list.range did not end when its bounds were not in
 order

---
 ticc/src/std/list.tic | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/std/list.tic b/ticc/src/std/list.tic
index 9d4ab38..0921e54 100644
--- a/ticc/src/std/list.tic
+++ b/ticc/src/std/list.tic
@@ -306,7 +306,7 @@ export let range : int -> int -> List int =
             match state with
             | RangeState i acc -> RangeState (i - 1) (Cons i acc)
             end;
-        let steps = stop - start;
+        let steps = if start < stop then stop - start else 0;
         match i.iterate steps step (RangeState (stop - 1) Nil) with
         | RangeState _ res -> res
         end;
-- 
2.43.0


From 16dac1fd659da3c6ca396d29340bc8814f0be328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 26/33] fix: the last exported main is the one that runs

---
 ticc/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticc/src/interpreter.rs b/ticc/src/interpreter.rs
index 5952639..53e4931 100644
--- a/ticc/src/interpreter.rs
+++ b/ticc/src/interpreter.rs
@@ -58,6 +58,7 @@ fn do_eval_main<F>(compilation: &mut CompilationUnit, runner: ExecFn<F>, input:
                 ir::Ty::Fn(a, b) => match (a.as_slice(), &**b) {
                     (&[ir::Ty::String], ir::Ty::String) => {
                         main = Some(v.name);
+                        break;
                     }
                     _ => return Err(InterpretError::InvalidMain),
                 },
-- 
2.43.0


From 85ff92f1615574fee1aaa6c4efdd0080d3487bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:48 +0000
Subject: [PATCH 27/33] fix: a path that leads to no file is not taken for a
 module that is loaded

---
 ticc/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index 1c16aa3..47255b1 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -261,7 +261,7 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
-        let identity = file_identity(&path);
+        let identity = path.canonicalize().map_err(ticc::ImportError::Io)?;
         let mut resolver = &*self;
         loop {
             if resolver.identity == identity {
-- 
2.43.0


From f03cfa3558ee37e29141991c9398c22de9018bee Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 28/33] fix: lines of the editor also end with a lone carriage
 return

---
 ticc-lsp/src/semantic_tokens.rs |  5 +++--
 ticc-lsp/src/utils.rs           | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/ticc-lsp/src/semantic_tokens.rs b/ticc-lsp/src/semantic_tokens.rs
index bec5ec4..e2a5938 100644
--- a/ticc-lsp/src/semantic_tokens.rs
+++ b/ticc-lsp/src/semantic_tokens.rs
@@ -1,5 +1,6 @@
 use lsp_types::SemanticToken;
 use ticc::{CompilationUnit, TokenKind};
+use crate::utils::is_line_end;
 
 pub fn get_semantic_tokens(compilation: &mut CompilationUnit) -> Vec<SemanticToken> {
     let src: &str = &compilation.source();
@@ -13,8 +14,8 @@ pub fn get_semantic_tokens(compilation: &mut CompilationUnit) -> Vec<SemanticTok
     for token in compilation.tokens() {
         let start_offset = token.span.start().source_pos();
         let end_offset = token.span.end().source_pos();
-        for c in src[last_token_start..start_offset].chars() {
-            if c == '\n' {
+        for (i, c) in src[last_token_start..start_offset].char_indices() {
+            if is_line_end(&src[last_token_start + i..]) {
                 current_pos.0 += 1;
                 current_pos.1 = 0;
             } else {
diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index e1d2671..e664801 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -38,8 +38,8 @@ impl<'a> LocationTranslator<'a> {
         let last = *self.line_starts.last().unwrap();
         let suffix = &self.source[last..];
         for (i, c) in suffix.char_indices() {
-            if c == '\n' {
-                self.line_starts.push(last + i + 1);
+            if is_line_end(&suffix[i..]) {
+                self.line_starts.push(last + i + c.len_utf8());
                 return;
             }
         }
@@ -47,6 +47,12 @@ impl<'a> LocationTranslator<'a> {
     }
 }
 
+/// Is the first character of the text the last one of a line? Lines end with
+/// "\n", "\r\n" or "\r".
+pub(crate) fn is_line_end(text: &str) -> bool {
+    text.starts_with('\n') || text.starts_with('\r') && !text.starts_with("\r\n")
+}
+
 pub(crate) trait ToLsp: Sized {
     type LspRepr;
 
@@ -108,11 +114,11 @@ impl ToTicc for Position {
         let next = translator.line_starts.get(self.line as usize + 1).copied();
         match (current, next) {
             (Some(line_start), next) => {
-                let line_end = match next {
-                    Some(next) => next - 1,
-                    None => translator.source.len(),
+                let line_source = match next {
+                    Some(next) => translator.source[line_start..next].trim_end_matches(['\r', '\n']),
+                    None => &translator.source[line_start..],
                 };
-                let line_source = &translator.source[line_start..line_end];
+                let line_end = line_start + line_source.len();
                 let mut current = 0;
                 for (i, c) in line_source.char_indices() {
                     current += c.len_utf16();
-- 
2.43.0


From e9981542869e381d7df16c81e912111116859e21 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 29/33] fix: names of modules are paths and not urls

---
 ticc-lsp/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ef1e6f0..cf117ac 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -406,7 +406,9 @@ struct CompilationModuleResolver {
 
 impl CompilationModuleResolver {
     fn name_to_key(&self, name: &str) -> Option<FileKey> {
-        self.current_key.0.join(name).ok().map(FileKey)
+        // names of modules are paths, these characters have a meaning only in urls
+        let name = name.replace('%', "%25").replace('?', "%3F").replace('#', "%23");
+        self.current_key.0.join(&name).ok().map(FileKey)
     }
 }
 
-- 
2.43.0


From 57892b2ed3990c8fd09feb114d06cdb3c75d0d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 30/33] fix: a file is the same one however its url is encoded

---
 ticc-lsp/src/main.rs | 47 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index cf117ac..006c0b2 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -10,7 +10,13 @@ mod utils;
 #[cfg(test)]
 mod tests;
 
-use std::{collections::{hash_map::Entry, HashMap}, path::Path, sync::{Arc, Mutex}};
+use std::{
+    cmp::Ordering,
+    collections::{hash_map::Entry, HashMap},
+    hash::{Hash, Hasher},
+    path::{Path, PathBuf},
+    sync::{Arc, Mutex},
+};
 use crossbeam_channel::Sender;
 use lsp_types::{
     CompletionOptions,
@@ -34,9 +40,46 @@ type Result<T, E = Error> = std::result::Result<T, E>;
 
 type ReadFile = Arc<dyn Fn(&Path) -> Result<String, std::io::Error> + Send + Sync>;
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Clone)]
+#[derive(Debug, Clone)]
 struct FileKey(lsp_types::Url);
 
+impl FileKey {
+    /// A file is the same one even if its url is encoded differently.
+    fn identity(&self) -> Result<PathBuf, &str> {
+        let is_file = self.0.scheme() == "file" && self.0.query().is_none() && self.0.fragment().is_none();
+        match self.0.to_file_path() {
+            Ok(path) if is_file => Ok(path),
+            _ => Err(self.0.as_str()),
+        }
+    }
+}
+
+impl PartialEq for FileKey {
+    fn eq(&self, other: &FileKey) -> bool {
+        self.identity() == other.identity()
+    }
+}
+
+impl Eq for FileKey {}
+
+impl PartialOrd for FileKey {
+    fn partial_cmp(&self, other: &FileKey) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for FileKey {
+    fn cmp(&self, other: &FileKey) -> Ordering {
+        self.identity().cmp(&other.identity())
+    }
+}
+
+impl Hash for FileKey {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.identity().hash(state)
+    }
+}
+
 impl From<lsp_types::Url> for FileKey {
     fn from(url: lsp_types::Url) -> FileKey {
         FileKey(url)
-- 
2.43.0


From f8edd093d948dca6055c373349413dfb39463905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:14 +0000
Subject: [PATCH 31/33] fix: remainders were printed as products in
 intermediate code

---
 ticc-core/src/pretty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-core/src/pretty.rs b/ticc-core/src/pretty.rs
index 217f59f..b57b6ca 100644
--- a/ticc-core/src/pretty.rs
+++ b/ticc-core/src/pretty.rs
@@ -161,7 +161,7 @@ impl Format<'_> {
                     ir::Op::Subtract => "-",
                     ir::Op::Multiply => "*",
                     ir::Op::Divide => "/",
-                    ir::Op::Modulo => "*",
+                    ir::Op::Modulo => "%",
                     ir::Op::Less => "<",
                     ir::Op::LessEq => "<=",
                     ir::Op::Greater => ">",
-- 
2.43.0


From fc271bd32e3b65ee5133bc89a1dcb711d20fbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:16 +0000
Subject: [PATCH 32/33] fix: different strings were printed alike (quotes and
 backslashes)

---
 ticc-core/src/ir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc-core/src/ir.rs b/ticc-core/src/ir.rs
index 1504b49..8a67c08 100644
--- a/ticc-core/src/ir.rs
+++ b/ticc-core/src/ir.rs
@@ -237,6 +237,8 @@ impl Debug for ByteString {
         for &b in self.bytes.iter() {
             let mut buf = [0u8; 4];
             let s = match b {
+                b'"' => "\\\"",
+                b'\\' => "\\\\",
                 32..=126 => {
                     buf[0] = b;
                     std::str::from_utf8(&buf[..1]).unwrap()
-- 
2.43.0


From f0f14bc68a391d0fa2157292a43a7152a3188df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:42 +0000
Subject: [PATCH 33/33] fix: types of imported modules were highlighted as
 values

---
 ticc/src/api/tokens.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ticc/src/api/tokens.rs b/ticc/src/api/tokens.rs
index d6bd0fc..84deac2 100644
--- a/ticc/src/api/tokens.rs
+++ b/ticc/src/api/tokens.rs
@@ -31,7 +31,16 @@ pub(crate) fn tokens(compilation: &mut CompilationUnit) -> impl Iterator<Item =
 
     let def_kinds = compilation.items
         .iter()
-        .flat_map(|i| i.defs.iter().map(|d| (d.symbol, &d.kind)))
+        .flat_map(|i| &i.defs)
+        .flat_map(|d| {
+            // names after a name of a module are definitions of that module
+            let imported = match &d.kind {
+                ir::DefKind::Module { unit } => Some(unit.props.types.values()),
+                _ => None,
+            };
+            imported.into_iter().flatten().chain(Some(d))
+        })
+        .map(|d| (d.symbol, &d.kind))
         .collect::<HashMap<_, _>>();
 
     let symbol_kinds = compilation.items
-- 
2.43.0

