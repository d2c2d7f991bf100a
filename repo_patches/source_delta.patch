From f1b21060c07d893b8a034770c869206f184f26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 01/43] fix: make cleaned and inferred types visible to
 following items

A def was added to the def set before its type was kind checked and
inferred, so items compiled in the same pass saw the type as unknown and
could use an unannotated value at any type.
---
 ticc/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ticc/src/lib.rs b/ticc/src/lib.rs
index 2610018..3636bab 100644
--- a/ticc/src/lib.rs
+++ b/ticc/src/lib.rs
@@ -125,7 +125,11 @@ impl CompilationUnit {
             defs.add_item(&item);
             compiler::numck::check_numbers(&mut item);
             compiler::kindck::kind_check(&mut item, &defs);
+            // types were cleaned up, make sure others don't see the old ones
+            defs.add_item(&item);
             compiler::typeck::type_check(&mut item, &defs);
+            // types were inferred, following items must not see them as unknown
+            defs.add_item(&item);
             compiler::matchck::check_matches(&mut item, &defs);
             self.items.push(item);
             scope.add_item(&self.src, self.items.last().unwrap(), false);
-- 
2.43.0


From 73bf947a100fbebef66e6e8482a01d857ded98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 02/43] fix: clean ill-kinded types from constructor function
 types too

Only the field types were cleaned, so using a constructor with a field
like (a int) as a function could panic the type checker.
---
 ticc/src/compiler/kindck.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index 01710f8..b3687d7 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -9,11 +9,17 @@ pub(crate) fn kind_check(item: &mut ir::Item, defs: &DefSet) {
             ir::DefKind::Value { ty, .. } => {
                 check_ty(defs, ty)
             }
-            ir::DefKind::Ctor { fields, .. } => {
+            ir::DefKind::Ctor { fields, fn_ty, .. } => {
+                let mut rest = fn_ty;
                 for field in fields {
+                    let ir::Type::Fn(arg, to) = rest else {
+                        unreachable!();
+                    };
                     if let ir::Field::Type(ty) = field {
                         check_ty(defs, ty);
+                        **arg = ty.clone();
                     }
+                    rest = &mut **to;
                 }
             }
             ir::DefKind::Type { .. } |
-- 
2.43.0


From 6c581d3f38820404b611398677c754531e5fe29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 03/43] fix: don't panic when matching on a type without a name

---
 ticc/src/compiler/matchck.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/matchck.rs b/ticc/src/compiler/matchck.rs
index c2fbb4b..655450b 100644
--- a/ticc/src/compiler/matchck.rs
+++ b/ticc/src/compiler/matchck.rs
@@ -56,7 +56,8 @@ fn check(
             return None;
         }
     };
-    let def = defs.lookup(ty_symbol);
+    // type def is not recorded if it was missing a name
+    let def = defs.defs.get(&ty_symbol)?;
     let all_ctors = match &def.kind {
         ir::DefKind::Type { ctors: ir::Ctors::List(ctors), .. } => ctors.clone(),
         ir::DefKind::Type { ctors: ir::Ctors::Opaque, .. } => {
-- 
2.43.0


From 34925c43ad94dbaea9e45f473ba2f050b7ba3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 04/43] fix: pick a type for unsolved parts of an unannotated
 value

The type of a top level value is not generic, but parts that were left
unsolved got instantiated to a fresh type at every use.
---
 ticc/src/compiler/typeck.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index d205950..0afee99 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -69,15 +69,38 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         let tys = tys.iter().map(|&ty| checker.unifier.to_ir(ty)).collect();
         item.type_insts.insert(node, tys);
     }
+    let has_errors = checker.diagnostics.iter().any(|d| d.severity == Severity::Error);
     for def in &mut item.defs {
         if let ir::DefKind::Value { ty, .. } = &mut def.kind {
             if let Some(&NameTy::Infer(inf)) = checker.symbol_types.get(&def.symbol) {
                 *ty = checker.unifier.to_ir(inf);
+                // Other items would see each unsolved part as a fresh variable
+                // on every use. Value is not generic so that would be unsound -
+                // pick the same arbitrary type that codegen is going to use.
+                if def.vis != ir::Visibility::Local && !has_errors {
+                    default_unsolved(ty);
+                }
             }
         }
     }
 }
 
+fn default_unsolved(ty: &mut ir::Type) {
+    match ty {
+        ir::Type::Int |
+        ir::Type::Bool |
+        ir::Type::String |
+        ir::Type::Error => {}
+        ir::Type::Named(_, args) => args.iter_mut().for_each(default_unsolved),
+        ir::Type::Fn(a, b) |
+        ir::Type::Folded(a, b) => {
+            default_unsolved(a);
+            default_unsolved(b);
+        }
+        ir::Type::Infer => *ty = ir::Type::Int,
+    }
+}
+
 #[derive(Debug)]
 enum NameTy<'a> {
     Infer(TyIdx),
-- 
2.43.0


From bd02905cb17ade4f3e95785d2a9c4eb20a7fd3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 05/43] fix: reject type variables that escape the scope of a
 local let

---
 ticc/src/compiler/typeck.rs | 73 +++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 4 deletions(-)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index 0afee99..aa02261 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use crate::{RawDiagnostic, Severity, Span};
 use crate::compiler::{DefSet, ir, syntax::node};
 use crate::compiler::syntax::{AstNode, NodeId, TokenKind};
@@ -13,6 +13,7 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
         symbol_types: HashMap::new(),
         diagnostics: &mut item.diagnostics,
         insts: HashMap::new(),
+        inferred_names: Vec::new(),
     };
     let mut symbol_vars = HashMap::new();
     for r in item.refs.iter().copied().chain(item.defs.iter().map(|d| d.to_ref())) {
@@ -41,6 +42,11 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             ir::DefKind::Module { .. } => {}
         }
     }
+    for def in &item.defs {
+        if let Some(&NameTy::Infer(var)) = checker.symbol_types.get(&def.symbol) {
+            checker.inferred_names.push((def.span, var));
+        }
+    }
     match syntax.item() {
         Some(node::Item::Import(_) | node::Item::Type(_)) => {}
         Some(node::Item::Value(i)) => {
@@ -107,7 +113,7 @@ enum NameTy<'a> {
     Inst(&'a ir::Type, &'a [ir::Symbol]),
 }
 
-#[derive(PartialEq, Eq, Debug, Clone, Copy)]
+#[derive(PartialEq, Eq, Debug, Hash, Clone, Copy)]
 struct TyIdx(u32);
 
 #[derive(Debug, Clone, Copy)]
@@ -194,6 +200,22 @@ impl Unifier {
         }
     }
 
+    fn mentions(&self, ty: TyIdx, symbol: ir::Symbol) -> bool {
+        match self.normalize(ty) {
+            Some(Ty::Named(s)) => s == symbol,
+            Some(Ty::Apply(a, b)) |
+            Some(Ty::Fn(a, b)) |
+            Some(Ty::Folded(a, b)) => {
+                self.mentions(a, symbol) || self.mentions(b, symbol)
+            }
+            Some(Ty::Bool) |
+            Some(Ty::Int) |
+            Some(Ty::String) |
+            Some(Ty::Error) |
+            None => false,
+        }
+    }
+
     fn unify(&mut self, t1: TyIdx, t2: TyIdx) -> Result<(), UnifyError> {
         let final_1 = self.final_idx(t1);
         let final_2 = self.final_idx(t2);
@@ -339,6 +361,7 @@ struct TypeChecker<'a> {
     symbol_types: HashMap<ir::Symbol, NameTy<'a>>,
     diagnostics: &'a mut Vec<RawDiagnostic>,
     insts: HashMap<NodeId, Vec<TyIdx>>,
+    inferred_names: Vec<(Span, TyIdx)>,
 }
 
 impl<'a> TypeChecker<'a> {
@@ -493,6 +516,7 @@ impl<'a> TypeChecker<'a> {
                 }
             }
             node::Expr::Let(expr) => {
+                let outer_slots = self.unifier.slots.len();
                 let bound_ty = if let Some(name) = expr.name() {
                     if let Some(&sym) = self.symbols.get(&name.syntax().id()) {
                         self.lookup_name_opaque(sym)
@@ -502,8 +526,11 @@ impl<'a> TypeChecker<'a> {
                 } else {
                     self.allocate(Ty::Error)
                 };
-                if let Some(expr) = expr.value() {
-                    self.check_expr(expr, bound_ty);
+                if let Some(value) = expr.value() {
+                    self.check_expr(value, bound_ty);
+                    if let Some(name) = expr.name() {
+                        self.check_escaping_vars(name, value, outer_slots);
+                    }
                 }
                 if let Some(expr) = expr.rest() {
                     self.check_expr(expr, expected);
@@ -626,6 +653,44 @@ impl<'a> TypeChecker<'a> {
         }
     }
 
+    /// Checks that types that existed before checking a let-bound value do not
+    /// depend on type variables introduced by the annotation of that value.
+    fn check_escaping_vars(&mut self, name: node::Name<'_>, value: node::Expr<'_>, outer_slots: usize) {
+        let Some(sym) = self.symbols.get(&name.syntax().id()) else {
+            return;
+        };
+        let Some(&NameTy::Inst(_, vars)) = self.symbol_types.get(sym) else {
+            return;
+        };
+        if vars.is_empty() {
+            return;
+        }
+        // Type slots of names that are bound inside the value are allocated up
+        // front, but those names are not visible outside.
+        let span = value.syntax().span();
+        let inner_names = self.inferred_names
+            .iter()
+            .filter(|(def_span, _)| span.start() <= def_span.start() && def_span.end() <= span.end())
+            .map(|&(_, idx)| idx)
+            .collect::<HashSet<_>>();
+        for &var in vars {
+            let escapes = (0..outer_slots)
+                .map(|idx| TyIdx(idx as u32))
+                .any(|idx| !inner_names.contains(&idx) && self.unifier.mentions(idx, var));
+            if escapes {
+                self.diagnostics.push(RawDiagnostic {
+                    message: err_fmt!(
+                        "type variable ",
+                        var,
+                        " escapes its scope",
+                    ),
+                    severity: Severity::Error,
+                    span: name.token().span(),
+                });
+            }
+        }
+    }
+
     fn check_operands(&mut self, expr: node::BinaryExpr<'_>, ty: TyIdx) {
         if let Some(e) = expr.lhs() {
             self.check_expr(e, ty);
-- 
2.43.0


From 04ce04c751d4ff5354d1488859e5d80b46cc813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 06/43] fix: track pointers in bytecode objects with more than
 64 fields

Pointer bits were kept in a single word, so a closure with more than 64
captures (or a constructor with as many fields) mixed up pointers and
integers.
---
 ticc-eval/src/heap.rs | 89 ++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 26 deletions(-)

diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 49424e1..23cf240 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -34,11 +34,16 @@ impl Heap {
     }
 
     pub(crate) fn alloc_object(&mut self, tag: u64, fields: u32) -> ObjAlloc<'_> {
-        let (addr, header, bytes) = self.raw_alloc(tag, fields * 8);
+        let (addr, header, bytes) = self.raw_alloc(tag, object_bytes(fields));
+        let words = bytes_to_words_mut(bytes);
+        if words.len() > MAX_HEADER_PTRS {
+            header.ptrs = WIDE_OBJECT;
+            words[(fields as usize)..].fill(0);
+        }
         ObjAlloc {
             addr,
             header,
-            fields: bytes_to_words_mut(bytes),
+            words,
         }
     }
 
@@ -89,12 +94,10 @@ impl Heap {
             current.0 += u64::from(header.size);
             if header.ptrs != 0 {
                 let ptrs = header.ptrs;
-                let fields = bytes_to_words(bytes);
-                pending.extend(fields.iter().copied());
-                for (i, field) in pending.drain(..).enumerate() {
-                    if ptrs & (1 << i) != 0 {
-                        self.bytes.obj_header(Addr(field)).mark = 1;
-                    }
+                let words = bytes_to_words(bytes);
+                pending.extend((0..field_count(words)).filter(|&i| is_ptr(ptrs, words, i)).map(|i| words[i]));
+                for field in pending.drain(..) {
+                    self.bytes.obj_header(Addr(field)).mark = 1;
                 }
             }
         }
@@ -113,11 +116,11 @@ impl Heap {
             new_bump = place_at;
             self.bytes.raw.copy_within((addr.0 as usize)..((addr.0 + u64::from(size)) as usize), place_at);
             self.move_dst[(addr.0 / u64::from(Header::SIZE)) as usize] = new_addr;
-            let (header, fields) = self.bytes.obj_fields_mut(new_addr);
+            let (header, words) = self.bytes.obj_words_mut(new_addr);
             if header.ptrs != 0 {
-                for (i, ptr) in fields.into_iter().enumerate() {
-                    if header.ptrs & (1 << i) != 0 {
-                        *ptr = self.move_dst[(*ptr / u64::from(Header::SIZE)) as usize].0;
+                for i in 0..field_count(words) {
+                    if is_ptr(header.ptrs, words, i) {
+                        words[i] = self.move_dst[(words[i] / u64::from(Header::SIZE)) as usize].0;
                     }
                 }
             }
@@ -129,16 +132,13 @@ impl Heap {
     }
 
     pub(crate) fn obj_with_fields(&self, addr: Addr) -> (u64, impl Iterator<Item = Value> + '_) {
-        let (header, fields) = self.bytes.obj_fields(addr);
+        let (header, words) = self.bytes.obj_words(addr);
         let ptrs = header.ptrs;
-        let fields = fields
-            .iter()
-            .copied()
-            .enumerate()
-            .map(move |(i, v)| if ptrs & (1 << i) != 0 {
-                Value::Ptr(Addr(v))
+        let fields = (0..field_count(words))
+            .map(move |i| if is_ptr(ptrs, words, i) {
+                Value::Ptr(Addr(words[i]))
             } else {
-                Value::Int(v)
+                Value::Int(words[i])
             });
         (header.tag, fields)
     }
@@ -184,7 +184,7 @@ impl HeapBytes {
         header
     }
 
-    fn obj_fields_mut(&mut self, addr: Addr) -> (&mut Header, &mut [u64]) {
+    fn obj_words_mut(&mut self, addr: Addr) -> (&mut Header, &mut [u64]) {
         let (header, bytes) = self.obj_parts_mut(addr);
         (header, bytes_to_words_mut(bytes))
     }
@@ -197,7 +197,7 @@ impl HeapBytes {
         (header, bytes)
     }
 
-    fn obj_fields(&self, addr: Addr) -> (&Header, &[u64]) {
+    fn obj_words(&self, addr: Addr) -> (&Header, &[u64]) {
         let (header, bytes) = self.obj_parts(addr);
         (header, bytes_to_words(bytes))
     }
@@ -215,6 +215,38 @@ fn bytes_to_words_mut(bytes: &mut [u8]) -> &mut [u64] {
     }
 }
 
+/// How many fields can have their pointer bit placed in object header.
+const MAX_HEADER_PTRS: usize = 64;
+
+/// Value of header bitset for objects that don't fit in it. Pointer bits for
+/// these objects are placed in extra words right after the fields.
+const WIDE_OBJECT: u64 = 1;
+
+fn object_bytes(fields: u32) -> u32 {
+    if fields as usize <= MAX_HEADER_PTRS {
+        fields * 8
+    } else {
+        (fields + (fields + 63) / 64) * 8
+    }
+}
+
+fn field_count(words: &[u64]) -> usize {
+    if words.len() <= MAX_HEADER_PTRS {
+        words.len()
+    } else {
+        // there's an extra word for every 64 fields
+        words.len() - (words.len() + 64) / 65
+    }
+}
+
+fn is_ptr(ptrs: u64, words: &[u64], idx: usize) -> bool {
+    if words.len() <= MAX_HEADER_PTRS {
+        ptrs & (1 << idx) != 0
+    } else {
+        words[field_count(words) + idx / 64] & (1 << (idx % 64)) != 0
+    }
+}
+
 fn round_up(bytes: u32) -> u32 {
     (bytes + 7) / 8 * 8
 }
@@ -222,17 +254,22 @@ fn round_up(bytes: u32) -> u32 {
 pub(crate) struct ObjAlloc<'a> {
     pub(crate) addr: Addr,
     header: &'a mut Header,
-    fields: &'a mut [u64],
+    words: &'a mut [u64],
 }
 
 impl ObjAlloc<'_> {
     pub(crate) fn put_ptr(&mut self, idx: usize, addr: Addr) {
-        self.fields[idx] = addr.0;
-        self.header.ptrs |= 1 << idx;
+        self.words[idx] = addr.0;
+        if self.words.len() <= MAX_HEADER_PTRS {
+            self.header.ptrs |= 1 << idx;
+        } else {
+            let ptrs_start = field_count(self.words);
+            self.words[ptrs_start + idx / 64] |= 1 << (idx % 64);
+        }
     }
 
     pub(crate) fn put_int(&mut self, idx: usize, value: u64) {
-        self.fields[idx] = value;
+        self.words[idx] = value;
     }
 }
 
-- 
2.43.0


From 13b42e83462fbfb1a0b998174635c8af79d47edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 07/43] fix: make sure there is enough space before a bytecode
 allocation

Garbage collection only runs after an allocation, so a single allocation
larger than the remaining space failed.
---
 ticc-eval/src/bytecode.rs | 18 ++++++++++++++++++
 ticc-eval/src/heap.rs     | 12 +++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/ticc-eval/src/bytecode.rs b/ticc-eval/src/bytecode.rs
index 00b61e1..a23aa83 100644
--- a/ticc-eval/src/bytecode.rs
+++ b/ticc-eval/src/bytecode.rs
@@ -260,6 +260,7 @@ impl Runtime {
                     }
                 }
                 Op::Construct { tag, fields } => {
+                    self.reserve(Heap::object_size(fields));
                     let mut obj = self.heap.alloc_object(tag, fields);
                     for i in (0..fields).rev() {
                         let value = self.stack.pop();
@@ -327,6 +328,7 @@ impl Runtime {
                     let mut concat = Vec::with_capacity(bytes1.len() + bytes2.len());
                     concat.extend(bytes1);
                     concat.extend(bytes2);
+                    self.reserve(Heap::bytes_size(concat.len() as u32));
                     let obj = self.heap.alloc_bytes(concat.len() as u64 | STRING_TAG, concat.len() as u32);
                     obj.bytes[..concat.len()].copy_from_slice(&concat);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -335,6 +337,7 @@ impl Runtime {
                 }
                 Op::StringFromChar => {
                     let x = self.stack.pop_int();
+                    self.reserve(Heap::bytes_size(1));
                     let obj = self.heap.alloc_bytes(1 | STRING_TAG, 1);
                     obj.bytes[0] = x as u8;
                     self.stack.push(Value::Ptr(obj.addr));
@@ -344,6 +347,7 @@ impl Runtime {
                 Op::IntToString => {
                     let x = self.stack.pop_int();
                     let s = x.to_string();
+                    self.reserve(Heap::bytes_size(s.len() as u32));
                     let obj = self.heap.alloc_bytes(s.len() as u64 | STRING_TAG, s.len() as u32);
                     obj.bytes[..s.len()].copy_from_slice(s.as_bytes());
                     self.stack.push(Value::Ptr(obj.addr));
@@ -360,6 +364,7 @@ impl Runtime {
                     let bytes = bytes.get(start..).unwrap_or(&[]);
                     let bytes = bytes.get(..take_len).unwrap_or(bytes);
                     let bytes = bytes.to_vec();
+                    self.reserve(Heap::bytes_size(bytes.len() as u32));
                     let obj = self.heap.alloc_bytes(bytes.len() as u64 | STRING_TAG, bytes.len() as u32);
                     obj.bytes[..bytes.len()].copy_from_slice(&bytes);
                     self.stack.push(Value::Ptr(obj.addr));
@@ -374,6 +379,19 @@ impl Runtime {
         }
     }
 
+    /// Make sure that an allocation of given size is going to succeed.
+    fn reserve(&mut self, bytes: usize) {
+        if self.heap.free_space() < bytes {
+            self.heap.collect_and_grow(
+                self.stack.ptrs()
+                    .chain(self.consts.iter_mut())
+                    .chain(std::iter::once(&mut self.bools.t))
+                    .chain(std::iter::once(&mut self.bools.f)),
+                bytes as u32,
+            );
+        }
+    }
+
     fn maybe_gc(&mut self) {
         if self.heap.allocated() > self.heap.capacity() / 2 {
             self.gc();
diff --git a/ticc-eval/src/heap.rs b/ticc-eval/src/heap.rs
index 23cf240..c8ea313 100644
--- a/ticc-eval/src/heap.rs
+++ b/ticc-eval/src/heap.rs
@@ -106,7 +106,7 @@ impl Heap {
             .max((ensure_free + retained_bytes) as usize);
         if min_capacity > self.bytes.raw.len() {
             self.bytes.raw.ensure_size(min_capacity);
-            self.move_dst.resize(min_capacity / (Header::SIZE as usize), Addr(0));
+            self.move_dst.resize(self.bytes.raw.len() / (Header::SIZE as usize), Addr(0));
         }
         let mut new_bump = self.bytes.raw.len();
         for addr in retained.into_iter().rev() {
@@ -160,6 +160,16 @@ impl Heap {
         self.capacity() - self.allocated()
     }
 
+    /// How much space is needed to allocate an object with given amount of fields.
+    pub(crate) fn object_size(fields: u32) -> usize {
+        (Header::SIZE + object_bytes(fields)) as usize
+    }
+
+    /// How much space is needed to allocate given amount of bytes.
+    pub(crate) fn bytes_size(bytes: u32) -> usize {
+        (Header::SIZE + round_up(bytes)) as usize
+    }
+
     pub(crate) fn base(&mut self) -> *mut () {
         self.bytes.raw.as_mut_ptr().cast::<()>()
     }
-- 
2.43.0


From 71b91601709f1b92185b26ffa83c9bac30595cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 08/43] fix: support constructors with more than 9 fields

---
 ticc-eval/src/tagged.rs | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ticc-eval/src/tagged.rs b/ticc-eval/src/tagged.rs
index aea4cc3..6534a64 100644
--- a/ticc-eval/src/tagged.rs
+++ b/ticc-eval/src/tagged.rs
@@ -1,47 +1,33 @@
-use std::{convert::TryInto, rc::Rc};
+use std::rc::Rc;
 use ticc_core::ir;
 use crate::Value;
 
 #[derive(Clone)]
 pub struct Tagged<F> {
-    alloc: Rc<TaggedAlloc<[Value<F>]>>,
-}
-
-struct TaggedAlloc<T: ?Sized> {
     tag: ir::Name,
-    values: T,
+    values: Rc<[Value<F>]>,
 }
 
 impl<F> Tagged<F> {
     pub(crate) fn from_array<const N: usize>(tag: ir::Name, arr: [Value<F>; N]) -> Tagged<F> {
-        let alloc = Rc::new(TaggedAlloc {
+        Tagged {
             tag,
-            values: arr,
-        });
-        Tagged { alloc }
+            values: Rc::new(arr),
+        }
     }
 
     pub(crate) fn from_vec(tag: ir::Name, values: Vec<Value<F>>) -> Tagged<F> {
-        match values.len() {
-            0 => Tagged::from_array::<0>(tag, []),
-            1 => Tagged::from_array::<1>(tag, values.try_into().unwrap()),
-            2 => Tagged::from_array::<2>(tag, values.try_into().unwrap()),
-            3 => Tagged::from_array::<3>(tag, values.try_into().unwrap()),
-            4 => Tagged::from_array::<4>(tag, values.try_into().unwrap()),
-            5 => Tagged::from_array::<5>(tag, values.try_into().unwrap()),
-            6 => Tagged::from_array::<6>(tag, values.try_into().unwrap()),
-            7 => Tagged::from_array::<7>(tag, values.try_into().unwrap()),
-            8 => Tagged::from_array::<8>(tag, values.try_into().unwrap()),
-            9 => Tagged::from_array::<9>(tag, values.try_into().unwrap()),
-            other => panic!("unsupported tagged value size: {}", other),
+        Tagged {
+            tag,
+            values: values.into(),
         }
     }
 
     pub fn tag(&self) -> ir::Name {
-        self.alloc.tag
+        self.tag
     }
 
     pub fn fields(&self) -> &[Value<F>] {
-        &self.alloc.values
+        &self.values
     }
 }
-- 
2.43.0


From d898493be4651d04a1045793bd65348444e4a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 09/43] fix: run the last definition of main when there are
 several

---
 ticc/src/interpreter.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/ticc/src/interpreter.rs b/ticc/src/interpreter.rs
index 5952639..2c42d58 100644
--- a/ticc/src/interpreter.rs
+++ b/ticc/src/interpreter.rs
@@ -51,24 +51,20 @@ pub(crate) fn eval_main(compilation: &mut CompilationUnit, runner: Runner, input
 fn do_eval_main<F>(compilation: &mut CompilationUnit, runner: ExecFn<F>, input: &[u8]) -> Result<Vec<u8>, InterpretError> {
     let verify = compilation.options.verify;
     let program = crate::codegen::emit_core(compilation);
-    let mut main = None;
-    for v in program.defs.iter().rev() {
-        if v.export_name.as_deref() == Some("main") {
-            match &v.ty {
-                ir::Ty::Fn(a, b) => match (a.as_slice(), &**b) {
-                    (&[ir::Ty::String], ir::Ty::String) => {
-                        main = Some(v.name);
-                    }
-                    _ => return Err(InterpretError::InvalidMain),
-                },
-                _ => return Err(InterpretError::InvalidMain),
-            }
-        }
+    // last definition is the one that's visible to others
+    let main = program.defs
+        .iter()
+        .rev()
+        .find(|v| v.export_name.as_deref() == Some("main"))
+        .ok_or(InterpretError::NoMain)?;
+    match &main.ty {
+        ir::Ty::Fn(a, b) => match (a.as_slice(), &**b) {
+            (&[ir::Ty::String], ir::Ty::String) => {}
+            _ => return Err(InterpretError::InvalidMain),
+        },
+        _ => return Err(InterpretError::InvalidMain),
     }
-    let main = match main {
-        Some(m) => m,
-        None => return Err(InterpretError::NoMain),
-    };
+    let main = main.name;
     let expr = ir::Expr::Call(
         Box::new(ir::Expr::Name(main)),
         Vec::from([
-- 
2.43.0


From eaa4d2577864d11e843a6384100ae8b6a25aea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 10/43] fix: do enough iterations to finish any gcd

Worst case for two 64 bit numbers is 93 steps.
---
 ticc/src/std/int.tic | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/std/int.tic b/ticc/src/std/int.tic
index c025fc3..ac4fb0c 100644
--- a/ticc/src/std/int.tic
+++ b/ticc/src/std/int.tic
@@ -60,7 +60,7 @@ export let gcd : int -> int -> int =
                 GcdState b (a % b)
         end;
     \a -> \b ->
-        match i.iterate 65 stepState (GcdState a b) with
+        match i.iterate 96 stepState (GcdState a b) with
         | GcdState x _ -> x
         end;
 
-- 
2.43.0


From e40b587cc9a1e39f909e6b47d20eb255d99a6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 11/43] fix: print modulo operator as % in emitted ir

---
 ticc-core/src/pretty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc-core/src/pretty.rs b/ticc-core/src/pretty.rs
index 217f59f..b57b6ca 100644
--- a/ticc-core/src/pretty.rs
+++ b/ticc-core/src/pretty.rs
@@ -161,7 +161,7 @@ impl Format<'_> {
                     ir::Op::Subtract => "-",
                     ir::Op::Multiply => "*",
                     ir::Op::Divide => "/",
-                    ir::Op::Modulo => "*",
+                    ir::Op::Modulo => "%",
                     ir::Op::Less => "<",
                     ir::Op::LessEq => "<=",
                     ir::Op::Greater => ">",
-- 
2.43.0


From b6acb12e18d8b1d4b38c16d3cab1f77dcc90c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 12/43] fix: detect import cycles that go through parent
 directories

Files were identified by the path used to reach them, and every trip
through the cycle produced a longer path.
---
 ticc/src/main.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index f23bb65..19a0a3b 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -226,6 +226,7 @@ impl FileModuleResolver {
             props: Default::default(),
         });
         let child = Arc::new(ChildResolver {
+            key: file_key(&path),
             path,
             root: resolver.clone(),
             parent: None,
@@ -235,11 +236,19 @@ impl FileModuleResolver {
 }
 
 struct ChildResolver {
+    /// Path how the file was reached.
     path: PathBuf,
+    /// Identifies the file no matter how it was reached.
+    key: PathBuf,
     root: Arc<FileModuleResolver>,
     parent: Option<Arc<ChildResolver>>,
 }
 
+/// Same file can be reached by many different paths if imports contain `..`.
+fn file_key(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_owned())
+}
+
 impl ChildResolver {
     fn relative_lookup(&self, name: &str) -> PathBuf {
         let mut path = self.path.clone();
@@ -254,9 +263,10 @@ impl ChildResolver {
 impl ModuleResolver for ChildResolver {
     fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ticc::ImportError> {
         let path = self.relative_lookup(name);
+        let key = file_key(&path);
         let mut resolver = &*self;
         loop {
-            if resolver.path == path {
+            if resolver.key == key {
                 return Err(ticc::ImportError::ImportCycle);
             }
             match &resolver.parent {
@@ -267,7 +277,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let root = self.root.props.lock().unwrap();
-            if let Some(unit) = root.cache.get(&path).cloned() {
+            if let Some(unit) = root.cache.get(&key).cloned() {
                 return Ok(unit);
             }
         }
@@ -279,6 +289,7 @@ impl ModuleResolver for ChildResolver {
 
         let child_resolver = Arc::new(ChildResolver {
             path: path.clone(),
+            key: key.clone(),
             root: self.root.clone(),
             parent: Some(self.clone()),
         });
@@ -293,7 +304,7 @@ impl ModuleResolver for ChildResolver {
 
         {
             let mut root = self.root.props.lock().unwrap();
-            root.cache.insert(path.clone(), unit.clone());
+            root.cache.insert(key, unit.clone());
         }
 
         if diagnostics.iter().any(|d| d.severity == Severity::Error) {
-- 
2.43.0


From 6925fc208eb84ed8651197e2d1388403ba02bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 13/43] fix: report every import of a missing module as missing
 in lsp

Second import of the same module was reported as an import cycle.
---
 ticc-lsp/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index ff5136f..77f5e73 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -409,9 +409,12 @@ impl ModuleResolver for CompilationModuleResolver {
 
         match self.dependencies.lock().unwrap().entry(key.clone()) {
             Entry::Occupied(e) => match e.get().unit.clone() {
-                None => {
+                None if source.content.is_ok() => {
                     return Err(ticc::ImportError::ImportCycle);
                 }
+                None => {
+                    // was imported already but could not be read
+                }
                 Some(unit) => {
                     return Ok(unit.clone())
                 }
-- 
2.43.0


From 80b3dbb4d4ce2dbab30e0c6bb57bd7799305e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 14/43] fix: report a file importing itself as an import cycle
 in lsp

---
 ticc-lsp/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 77f5e73..81f3420 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -369,7 +369,15 @@ impl Compilation {
             let source_text = source.content.ok().unwrap_or_default();
 
             self.source_version = source.version;
-            self.dependencies.lock().unwrap().clear();
+            {
+                let mut dependencies = self.dependencies.lock().unwrap();
+                dependencies.clear();
+                // file itself is being compiled too, importing it is a cycle
+                dependencies.insert(self.key.clone(), Dependency {
+                    unit: None,
+                    source_version: source.version,
+                });
+            }
             self.unit = CompilationUnit::new(
                 &source_text,
                 ticc::Options::default(),
-- 
2.43.0


From 665fdf160c814218c11b2a78cfa874acb8e458d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 15/43] fix: don't let a position past the end of a line spill
 into the next line

---
 ticc-lsp/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index 87d146d..e485065 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -101,7 +101,8 @@ impl ToTicc for Position {
     type TiccRepr = Pos;
 
     fn to_ticc(self, translator: &mut LocationTranslator<'_>) -> Self::TiccRepr {
-        while !translator.complete && translator.line_starts.len() <= self.line as usize {
+        // start of the next line is needed to know where this one ends
+        while !translator.complete && translator.line_starts.len() <= self.line as usize + 1 {
             translator.find_next_line_position();
         }
         let current = translator.line_starts.get(self.line as usize).copied();
-- 
2.43.0


From 19b98164c4636e5c825f862158a503aa93b14c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 16/43] fix: don't crash lsp on requests for documents that are
 not open

---
 ticc-lsp/src/handlers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 9a70bfd..3381b01 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -10,7 +10,7 @@ fn semantic_tokens(
     params: lsp_types::SemanticTokensParams,
 ) -> Option<lsp_types::SemanticTokensResult> {
     let key = FileKey::from(params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let tokens = crate::semantic_tokens::get_semantic_tokens(&mut compilation.unit);
     Some(lsp_types::SemanticTokensResult::Tokens(lsp_types::SemanticTokens {
         result_id: None,
@@ -23,7 +23,7 @@ fn go_to_definition(
     params: lsp_types::GotoDefinitionParams,
 ) -> Option<lsp_types::GotoDefinitionResponse> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     if let Some(range) = crate::go_to_definition::find_definition(&mut compilation.unit, pos) {
         Some(lsp_types::GotoDefinitionResponse::Scalar(lsp_types::Location {
@@ -40,7 +40,7 @@ fn find_references(
     params: lsp_types::ReferenceParams,
 ) -> Option<Vec<lsp_types::Location>> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     let references = crate::find_references::find_references(&mut compilation.unit, pos)?;
     let mut references = references
@@ -66,7 +66,7 @@ fn hover(
     params: lsp_types::HoverParams,
 ) -> Option<lsp_types::Hover> {
     let key = FileKey::from(params.text_document_position_params.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position_params.position;
     crate::hover::hover(&mut compilation.unit, pos)
 }
@@ -76,7 +76,7 @@ fn completions(
     params: lsp_types::CompletionParams,
 ) -> Option<lsp_types::CompletionResponse> {
     let key = FileKey::from(params.text_document_position.text_document.uri);
-    let compilation = server.compilations.get_mut(&key).unwrap();
+    let compilation = server.compilations.get_mut(&key)?;
     let pos = params.text_document_position.position;
     crate::completions::completions(&mut compilation.unit, pos)
 }
-- 
2.43.0


From 6fce486202d976b44cb6516215973753d6a07030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 17/43] fix: apply all changes from a document change
 notification

---
 ticc-lsp/src/handlers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 3381b01..6478344 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -95,8 +95,11 @@ fn on_change(
     params: lsp_types::DidChangeTextDocumentParams,
 ) {
     let key = FileKey::from(params.text_document.uri);
-    server.files.set(key.clone(), &params.content_changes[0].text);
-    on_file_update(server, key);
+    // every change has full text, so the last one overrides the others
+    if let Some(change) = params.content_changes.last() {
+        server.files.set(key.clone(), &change.text);
+        on_file_update(server, key);
+    }
 }
 
 fn on_close(
-- 
2.43.0


From 04d3342646f5bcf7058cd5e8c58623f8a5bb30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 18/43] fix: don't panic when hovering an expression that was
 not typechecked

---
 ticc/src/api/info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index 8f598d1..e9177fc 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -48,7 +48,8 @@ fn def_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
 
 fn expr_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
     let (item, expr) = find_expr_at_pos(compilation, pos)?;
-    let ty = &item.types[&expr.syntax().id()];
+    // expressions in malformed code might have been not typechecked
+    let ty = item.types.get(&expr.syntax().id())?;
     let mut type_printer = super::TypePrinter::new(compilation);
     let mut doc = String::new();
     type_printer.print_type(&ty, &mut doc);
-- 
2.43.0


From 856e99e254c6174293926082405a91492698f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 19/43] fix: complete types instead of values after a namespace
 in a type

---
 ticc/src/compiler/resolve.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 2f59acf..8bb64bc 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -321,7 +321,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -346,7 +346,7 @@ fn resolve_type(sink: &mut impl ResolveSink, ty: node::Type<'_>, scope: &Scope<'
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
@@ -411,7 +411,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                 (Some(namespace), Some(name)) => {
                     sink.on_name(namespace, NameUsage::Module, scope, Namespace::None);
                     if let Some(module) = scope.lookup_module(namespace.token().text()) {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::Module(module.clone()));
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::Module(module.clone()));
                         // TODO: sink.record_ref for the module usage
                         match module.props.find_export(crate::Namespace::Type, name.token().text()) {
                             Ok(def) => {
@@ -436,7 +436,7 @@ fn resolve_type_with_vars<'a>(sink: &mut impl ResolveSink, module: ModuleKey, ty
                             }
                         }
                     } else {
-                        sink.on_name(name, NameUsage::Value, scope, Namespace::UnresolvedModule);
+                        sink.on_name(name, NameUsage::Type, scope, Namespace::UnresolvedModule);
                         sink.record_error(RawDiagnostic {
                             span: namespace.token().span(),
                             severity: Severity::Error,
-- 
2.43.0


From 13707dc55c4d32d08f1ec31586c45efcb4be4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 20/43] fix: print names of symbols that are defined in
 imported modules

---
 ticc/src/api.rs        | 28 +++++++++++++++++++++++++---
 ticc/src/api/errors.rs | 10 +---------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index cd3bd06..c4ccc91 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -52,6 +52,30 @@ fn find_def(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&ir::De
     None
 }
 
+/// Returns a name that was given to the symbol where it was defined. Symbols
+/// of imported modules have a name only if they are exported.
+fn find_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&str> {
+    if let Some(def) = find_def(compilation, symbol) {
+        return Some(&compilation.src[def.span.source_range()]);
+    }
+    find_exported_name(compilation, symbol)
+}
+
+fn find_exported_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&str> {
+    for def in compilation.items.iter().flat_map(|i| &i.defs) {
+        match &def.kind {
+            ir::DefKind::Module { unit } if unit.props.types.contains_key(&symbol) => {
+                return find_exported_name(&unit.props.unit, symbol);
+            }
+            _ if def.symbol == symbol && def.vis == ir::Visibility::Export => {
+                return Some(&compilation.src[def.span.source_range()]);
+            }
+            _ => {}
+        }
+    }
+    None
+}
+
 struct TypePrinter<'a> {
     compilation: &'a CompilationUnit,
     name_cache: HashMap<ir::Symbol, &'a str>,
@@ -118,11 +142,9 @@ impl<'a> TypePrinter<'a> {
         if let Some(name) = self.name_cache.get(&symbol).copied() {
             return name;
         }
-        let Some(def) = find_def(self.compilation, symbol) else {
-            // TODO: figure out names for defs from other modules
+        let Some(name) = find_name(self.compilation, symbol) else {
             return "???";
         };
-        let name = &self.compilation.src[def.span.source_range()];
         self.name_cache.insert(symbol, name);
         name
     }
diff --git a/ticc/src/api/errors.rs b/ticc/src/api/errors.rs
index cc56e2c..5d0c3e3 100644
--- a/ticc/src/api/errors.rs
+++ b/ticc/src/api/errors.rs
@@ -50,15 +50,7 @@ fn format_message(
                 type_printer.print_type(ty, &mut message);
             }
             RawSegment::Symbol(sym) => {
-                let def = match super::find_def(compilation, *sym) {
-                    Some(d) => d,
-                    None => {
-                        message.push_str("WTF");
-                        continue;
-                    }
-                };
-                let name = &compilation.src[def.span.source_range()];
-                message.push_str(name);
+                message.push_str(super::find_name(compilation, *sym).unwrap_or("???"));
             }
         }
     }
-- 
2.43.0


From 4a0870dc25d7e80cf122bc8bc60a990550c7df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 21/43] fix: highlight namespaced constructors and types as
 such

---
 ticc/src/api/tokens.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ticc/src/api/tokens.rs b/ticc/src/api/tokens.rs
index d6bd0fc..228dcf0 100644
--- a/ticc/src/api/tokens.rs
+++ b/ticc/src/api/tokens.rs
@@ -29,10 +29,14 @@ pub struct Token {
 pub(crate) fn tokens(compilation: &mut CompilationUnit) -> impl Iterator<Item = Token> + '_ {
     compilation.compile_to_end();
 
-    let def_kinds = compilation.items
-        .iter()
-        .flat_map(|i| i.defs.iter().map(|d| (d.symbol, &d.kind)))
-        .collect::<HashMap<_, _>>();
+    let mut def_kinds = HashMap::new();
+    for def in compilation.items.iter().flat_map(|i| &i.defs) {
+        if let ir::DefKind::Module { unit } = &def.kind {
+            // these can be referred to by a namespaced name
+            def_kinds.extend(unit.props.types.iter().map(|(&symbol, d)| (symbol, &d.kind)));
+        }
+        def_kinds.insert(def.symbol, &def.kind);
+    }
 
     let symbol_kinds = compilation.items
         .iter()
-- 
2.43.0


From 34f2b35aaab978dbace41f74cb5a40d2800c2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 22/43] fix: don't mix up types of imported constructors in
 unused lint

---
 ticc/src/lint/unused.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index 3a50eac..fc1d193 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -10,10 +10,6 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
         for r in &item.refs {
             used.insert(r.symbol);
         }
-        let type_def = item.defs
-            .iter()
-            .find(|d| matches!(d.kind, DefKind::Type { is_var: false, ..}))
-            .map(|d| d.symbol);
         for d in &item.defs {
             if let DefKind::Type { is_var: true, .. } = d.kind {
                 used.insert(d.symbol);
@@ -21,10 +17,8 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if d.vis == Visibility::Export {
                 used.insert(d.symbol);
             }
-            if let DefKind::Ctor { .. } = d.kind {
-                if let Some(type_sym) = type_def {
-                    deps.insert(d.symbol, type_sym);
-                }
+            if let DefKind::Ctor { type_symbol, .. } = d.kind {
+                deps.insert(d.symbol, type_symbol);
             }
         }
     }
-- 
2.43.0


From 73efcb30973149dc48bafdcda990e49ccebad56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 23/43] fix: report an unused imported constructor only once

---
 ticc/src/compiler/resolve.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticc/src/compiler/resolve.rs b/ticc/src/compiler/resolve.rs
index 8bb64bc..50540a4 100644
--- a/ticc/src/compiler/resolve.rs
+++ b/ticc/src/compiler/resolve.rs
@@ -150,12 +150,16 @@ fn resolve_import_item(sink: &mut impl ResolveSink, module: ModuleKey, item: nod
 
     if let Some(exposed) = item.exposed_list() {
         for name in exposed.imported_names() {
-            let mut found = false;
+            let mut found = Vec::new();
             for ns in crate::Namespace::ALL {
                 let Ok(def) = unit.props.find_export(ns, name.token().text()).cloned() else {
                     continue;
                 };
-                found = true;
+                // constructors are found both as a value and as a pattern
+                if found.contains(&def.symbol) {
+                    continue;
+                }
+                found.push(def.symbol);
                 sink.record_def(ir::Def::new(
                     module,
                     def.symbol,
@@ -164,7 +168,7 @@ fn resolve_import_item(sink: &mut impl ResolveSink, module: ModuleKey, item: nod
                     name,
                 ));
             }
-            if !found {
+            if found.is_empty() {
                 sink.record_error(RawDiagnostic {
                     span: name.token().span(),
                     severity: Severity::Error,
-- 
2.43.0


From 16f0c03623d0ba808fe2e55977e1af7108ba692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 24/43] fix: infer types of unannotated top level values

The type variable of the name was never unified with the type of the
expression, so the recorded type stayed unknown.
---
 ticc/src/compiler/typeck.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ticc/src/compiler/typeck.rs b/ticc/src/compiler/typeck.rs
index aa02261..df97d23 100644
--- a/ticc/src/compiler/typeck.rs
+++ b/ticc/src/compiler/typeck.rs
@@ -53,12 +53,7 @@ pub(crate) fn type_check(item: &mut ir::Item, defs: &DefSet) {
             let expected_ty = if let Some(name) = i.name() {
                 let span = name.token().span();
                 let def = item.defs.iter().find(|d| d.span == span).unwrap();
-                match &def.kind {
-                    ir::DefKind::Value { type_vars: _, ty } => {
-                        checker.unifier.instantiate(ty, &[])
-                    }
-                    _ => unreachable!(),
-                }
+                checker.lookup_name_opaque(def.symbol)
             } else {
                 checker.allocate(Ty::Error)
             };
-- 
2.43.0


From a22ef630dd3a688b6c511a7db048441870b3ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 25/43] fix: evaluate function before arguments in bytecode
 runner

When both trap the runners reported different traps.
---
 ticc-eval/src/compile.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/ticc-eval/src/compile.rs b/ticc-eval/src/compile.rs
index f8869f9..46f6567 100644
--- a/ticc-eval/src/compile.rs
+++ b/ticc-eval/src/compile.rs
@@ -132,6 +132,12 @@ impl FunctionCompiler<'_> {
                 self.pick_var(*n);
             }
             ir::Expr::Call(f, args) => {
+                // function must be evaluated before arguments, but the call
+                // expects it on top of the stack
+                let fn_first = can_trap(f) && args.iter().any(can_trap);
+                if fn_first {
+                    self.compile_expr(f, false);
+                }
                 for arg in args {
                     self.compile_expr(arg, false);
                 }
@@ -153,12 +159,19 @@ impl FunctionCompiler<'_> {
                             break 'compile_call;
                         }
                     }
-                    self.compile_expr(f, false);
+                    if fn_first {
+                        self.op(Op::Pick(args.len()), 1);
+                    } else {
+                        self.compile_expr(f, false);
+                    }
                     // call will push return address to stack - add and remove it for max stack size tracking
                     self.change_stack_size(1);
                     self.change_stack_size(-1);
                     // args+fn get replaced with result
                     self.op(Op::Call, -(args.len() as isize));
+                    if fn_first {
+                        self.op(Op::SwapPop, -1);
+                    }
                 }
             }
             ir::Expr::If(c, t, e) => {
@@ -435,6 +448,22 @@ fn free_variables(expr: &ir::Expr) -> Vec<ir::Name> {
     used
 }
 
+/// Whether evaluating the expression might be observable, conservatively.
+fn can_trap(expr: &ir::Expr) -> bool {
+    match expr {
+        ir::Expr::Bool(_) |
+        ir::Expr::Int(_) |
+        ir::Expr::String(_) |
+        ir::Expr::Name(_) |
+        ir::Expr::Lambda(_, _) => false,
+        ir::Expr::LetRec(_, _, _, e) |
+        ir::Expr::Pi(_, e) |
+        ir::Expr::PiApply(e, _) => can_trap(e),
+        ir::Expr::Construct(_, _, fields) => fields.iter().any(can_trap),
+        _ => true,
+    }
+}
+
 fn unwrap_pis(mut expr: &ir::Expr) -> &ir::Expr {
     while let ir::Expr::Pi(_, e) = expr {
         expr = e;
-- 
2.43.0


From 07d21dd7fa922db7e70e4e317ada0c2f5c1c1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 26/43] fix: find exposed names in imports that have no alias

---
 ticc/src/api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index c4ccc91..0ff35cd 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -28,7 +28,7 @@ fn find_def_at(compilation: &CompilationUnit, pos: Pos) -> Option<&ir::Def> {
             continue;
         }
         for def in &item.defs {
-            if def.span.start() <= pos && pos <= def.span.end() {
+            if def.has_name && def.span.start() <= pos && pos <= def.span.end() {
                 return Some(&def);
             }
         }
-- 
2.43.0


From 151388cb5b31d2df42fd0edad0ae252af3faf806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 27/43] fix: print names of type variables that are defined in
 imported modules

---
 ticc/src/api.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index 0ff35cd..bb0cc8e 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -67,6 +67,10 @@ fn find_exported_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Opti
             ir::DefKind::Module { unit } if unit.props.types.contains_key(&symbol) => {
                 return find_exported_name(&unit.props.unit, symbol);
             }
+            // type variables show up in types of exported values
+            ir::DefKind::Type { is_var: true, .. } if def.symbol == symbol => {
+                return Some(&compilation.src[def.span.source_range()]);
+            }
             _ if def.symbol == symbol && def.vis == ir::Visibility::Export => {
                 return Some(&compilation.src[def.span.source_range()]);
             }
-- 
2.43.0


From 75da6b126d2638a74be0089cc260fa5824894f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 28/43] fix: show types of names that are qualified with a
 module

---
 ticc/src/api.rs      | 11 +++++++++++
 ticc/src/api/info.rs |  5 +++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ticc/src/api.rs b/ticc/src/api.rs
index bb0cc8e..456d464 100644
--- a/ticc/src/api.rs
+++ b/ticc/src/api.rs
@@ -52,6 +52,17 @@ fn find_def(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&ir::De
     None
 }
 
+/// Finds a definition that can be referred to by a namespaced name.
+fn find_imported_def(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&ir::Def> {
+    compilation.items
+        .iter()
+        .flat_map(|i| &i.defs)
+        .find_map(|def| match &def.kind {
+            ir::DefKind::Module { unit } => unit.props.types.get(&symbol),
+            _ => None,
+        })
+}
+
 /// Returns a name that was given to the symbol where it was defined. Symbols
 /// of imported modules have a name only if they are exported.
 fn find_name(compilation: &CompilationUnit, symbol: ir::Symbol) -> Option<&str> {
diff --git a/ticc/src/api/info.rs b/ticc/src/api/info.rs
index e9177fc..efb2fd3 100644
--- a/ticc/src/api/info.rs
+++ b/ticc/src/api/info.rs
@@ -14,8 +14,9 @@ pub(crate) fn info_at(compilation: &mut CompilationUnit, pos: Pos) -> Option<Inf
 
 fn def_info(compilation: &CompilationUnit, pos: Pos) -> Option<Info> {
     let r = super::find_def_or_ref_at(compilation, pos)?;
-    let def = super::find_def(compilation, r.symbol)?;
-    let name = &compilation.src[def.span.source_range()];
+    let def = super::find_def(compilation, r.symbol)
+        .or_else(|| super::find_imported_def(compilation, r.symbol))?;
+    let name = super::find_name(compilation, r.symbol)?;
     let mut type_printer = super::TypePrinter::new(compilation);
     let doc = match &def.kind {
         ir::DefKind::Value { ty, .. } => {
-- 
2.43.0


From 10a25f36ffafc3ecd1b03cdc3d1027d4c2fb153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 29/43] fix: complete constructors when a value is written
 after a module name

---
 ticc/src/api/completion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticc/src/api/completion.rs b/ticc/src/api/completion.rs
index 362d70a..b24011f 100644
--- a/ticc/src/api/completion.rs
+++ b/ticc/src/api/completion.rs
@@ -85,7 +85,9 @@ fn add_exports(completions: &mut Vec<Completion>, unit: &CompleteUnit, for_usage
             ir::DefKind::Type { .. } => resolve::NameUsage::Type,
             ir::DefKind::Module { .. } => resolve::NameUsage::Module,
         };
-        if kind == for_usage {
+        // constructors can also be used as values
+        let is_value_ctor = kind == resolve::NameUsage::Ctor && for_usage == resolve::NameUsage::Value;
+        if kind == for_usage || is_value_ctor {
             completions.push(Completion { name: name.name.clone() })
         }
     }
-- 
2.43.0


From 352e2084f164cee748fd6fe0bc97df13156580a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 30/43] fix: count a constructor used through a module name as
 a use of its type

---
 ticc/src/lint/unused.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ticc/src/lint/unused.rs b/ticc/src/lint/unused.rs
index fc1d193..21b6a94 100644
--- a/ticc/src/lint/unused.rs
+++ b/ticc/src/lint/unused.rs
@@ -20,6 +20,14 @@ pub(crate) fn lints(compilation: &mut CompilationUnit) -> Vec<RawDiagnostic> {
             if let DefKind::Ctor { type_symbol, .. } = d.kind {
                 deps.insert(d.symbol, type_symbol);
             }
+            if let DefKind::Module { unit } = &d.kind {
+                // these can be referred to by a namespaced name
+                for d in unit.props.types.values() {
+                    if let DefKind::Ctor { type_symbol, .. } = d.kind {
+                        deps.insert(d.symbol, type_symbol);
+                    }
+                }
+            }
         }
     }
     let extras = used.iter().filter_map(|s| deps.get(s).copied()).collect::<Vec<_>>();
-- 
2.43.0


From 5560dd43ceccb9363486cafa713ba5ef9b78311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 31/43] fix: recover from a bad item at a following import

---
 ticc/src/compiler/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticc/src/compiler/parser.rs b/ticc/src/compiler/parser.rs
index 2257a86..f6a0cc8 100644
--- a/ticc/src/compiler/parser.rs
+++ b/ticc/src/compiler/parser.rs
@@ -235,6 +235,7 @@ impl Parser<'_> {
         let m = self.start();
         while let Some(tok) = self.peek() {
             let recover = match tok {
+                TokenKind::Import |
                 TokenKind::Export |
                 TokenKind::Type => true,
                 TokenKind::Let => self.at_start_of_line,
-- 
2.43.0


From f2294b5ef4af9b1b5803d1217f8a32312ddf53aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 32/43] fix: do not skip a semicolon where a type is missing

---
 ticc/src/compiler/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/parser.rs b/ticc/src/compiler/parser.rs
index f6a0cc8..a1e1f86 100644
--- a/ticc/src/compiler/parser.rs
+++ b/ticc/src/compiler/parser.rs
@@ -222,7 +222,8 @@ impl Parser<'_> {
     fn error_recover(&mut self, hint: ParseHint) {
         self.emit_error();
         if let Some(tok) = self.peek() {
-            if !hint.starts_with_token(tok) {
+            // semicolon must be left to end the current item or let expression
+            if !hint.starts_with_token(tok) && tok != TokenKind::Semicolon {
                 let m = self.start();
                 self.bump_any();
                 m.complete(self, SyntaxKind::Error);
-- 
2.43.0


From 28a453c1f92d458e90dc20f2c299da0ea1013761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 33/43] fix: clamp editor positions before a CRLF line end

---
 ticc-lsp/src/utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticc-lsp/src/utils.rs b/ticc-lsp/src/utils.rs
index e485065..5014375 100644
--- a/ticc-lsp/src/utils.rs
+++ b/ticc-lsp/src/utils.rs
@@ -110,6 +110,8 @@ impl ToTicc for Position {
         match (current, next) {
             (Some(line_start), next) => {
                 let line_end = match next {
+                    // "\r\n" is a line end too
+                    Some(next) if translator.source[line_start..next].ends_with("\r\n") => next - 2,
                     Some(next) => next - 1,
                     None => translator.source.len(),
                 };
-- 
2.43.0


From 4790562ad8d3338553edb0201a1839719c77a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 34/43] fix: use files on disk again when documents are closed

---
 ticc-lsp/src/handlers.rs |  3 ++-
 ticc-lsp/src/main.rs     | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/handlers.rs b/ticc-lsp/src/handlers.rs
index 6478344..3bcab77 100644
--- a/ticc-lsp/src/handlers.rs
+++ b/ticc-lsp/src/handlers.rs
@@ -108,7 +108,8 @@ fn on_close(
 ) {
     let key = FileKey::from(params.text_document.uri);
     server.compilations.remove_file(&key);
-    clear_diagnostics(server, key);
+    clear_diagnostics(server, key.clone());
+    on_file_update(server, key);
 }
 
 fn on_file_update(
diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 81f3420..25ca5c0 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -67,6 +67,8 @@ impl CompilationSet {
 
     fn remove_file(&mut self, file: &FileKey) {
         self.compilations.remove(file);
+        // text on disk is the current one again
+        self.files.reload(file);
     }
 }
 
@@ -313,6 +315,14 @@ impl FileSet {
             });
     }
 
+    fn reload(&self, key: &FileKey) {
+        let content = self.read_file(key).map(Into::into).map_err(|e| e.kind());
+        if let Some(c) = self.files.lock().unwrap().get_mut(key) {
+            c.content = content;
+            c.version += 1;
+        }
+    }
+
     fn get(&self, key: &FileKey) -> FileContent {
         let x = self.files
             .lock()
-- 
2.43.0


From 2fb66b9ed3d9eb069f38369e955a4a88cf615962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 35/43] fix: answer requests that are not supported

---
 ticc-lsp/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 25ca5c0..92d73b1 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -169,6 +169,12 @@ impl Handlers {
             }
         }
         eprintln!("unhandled request: {:?}", request.method);
+        // every request must get a response
+        server.sender.send(Message::Response(lsp_server::Response::new_err(
+            request.id,
+            lsp_server::ErrorCode::MethodNotFound as i32,
+            format!("unsupported method: {}", request.method),
+        ))).unwrap();
         Ok(())
     }
 
-- 
2.43.0


From 526ba01d6c06b5aae90063525b51bceca35ceedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 36/43] fix: verify type arguments

---
 ticc-core/src/verify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ticc-core/src/verify.rs b/ticc-core/src/verify.rs
index 1ad3ca1..f404d9e 100644
--- a/ticc-core/src/verify.rs
+++ b/ticc-core/src/verify.rs
@@ -293,6 +293,9 @@ impl Validator {
                 let ctor = self.ctors[ctor].clone();
                 assert_eq!(ctor.ty_vars.len(), tys.len());
                 assert_eq!(ctor.fields.len(), fields.len());
+                for ty in tys {
+                    self.check_ty(ty);
+                }
                 for (field, ty) in fields.iter().zip(&ctor.fields) {
                     let mut ty = ty.clone();
                     for (&var, t) in ctor.ty_vars.iter().zip(tys) {
@@ -335,6 +338,7 @@ impl Validator {
                 ir::Ty::Abs(*ty, Box::new(e))
             },
             ir::Expr::PiApply(e, ty) => {
+                self.check_ty(ty);
                 let e = self.check_expr(e);
                 match e {
                     ir::Ty::Abs(var, mut t) => {
-- 
2.43.0


From 07d859052a4e474c9ff8048c0ea58664d42e8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 37/43] fix: compare types of branches up to bound variables
 when verifying

---
 ticc-core/src/verify.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ticc-core/src/verify.rs b/ticc-core/src/verify.rs
index f404d9e..2e6d8ca 100644
--- a/ticc-core/src/verify.rs
+++ b/ticc-core/src/verify.rs
@@ -217,9 +217,7 @@ impl Validator {
                 assert_fits(&c, &ir::Ty::Bool);
                 let t = self.check_expr(t);
                 let e = self.check_expr(e);
-                if t != e {
-                    panic!("if branches are {:?} and {:?}", t, e);
-                }
+                assert_fits(&e, &t);
                 t
             }
             ir::Expr::Op(a, o, b) => {
@@ -277,10 +275,7 @@ impl Validator {
                     }
                     let value = self.check_expr(&br.value);
                     match &ty {
-                        Some(t) if *t != value => {
-                            panic!("match branches are {:?} and {:?}", t, value);
-                        }
-                        Some(_) => {}
+                        Some(t) => assert_fits(&value, t),
                         None => ty = Some(value),
                     }
                     for &bind in &br.bindings {
-- 
2.43.0


From afeba914427a77bc8d915dfe8f1cd0851e14639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:25 +0000
Subject: [PATCH 38/43] fix: find imported files with special characters in
 their names

---
 ticc-lsp/src/main.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 92d73b1..3f6bf03 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -419,7 +419,26 @@ struct CompilationModuleResolver {
 
 impl CompilationModuleResolver {
     fn name_to_key(&self, name: &str) -> Option<FileKey> {
-        self.current_key.0.join(name).ok().map(FileKey)
+        let mut url = self.current_key.0.clone();
+        url.set_query(None);
+        url.set_fragment(None);
+        {
+            // name is a path, characters like `#` and `%` mean nothing special in it
+            let mut segments = url.path_segments_mut().ok()?;
+            segments.pop();
+            for segment in name.split('/') {
+                match segment {
+                    "." => {}
+                    ".." => {
+                        segments.pop_if_empty().pop();
+                    }
+                    segment => {
+                        segments.pop_if_empty().push(segment);
+                    }
+                }
+            }
+        }
+        Some(FileKey(url))
     }
 }
 
-- 
2.43.0


From c35abdacbf57300b6e46c6186fdb6c50fcf46ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:25 +0000
Subject: [PATCH 39/43] fix: treat differently encoded urls of a file as the
 same file

---
 ticc-lsp/src/main.rs | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 3f6bf03..7a8e1ec 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -10,7 +10,7 @@ mod utils;
 #[cfg(test)]
 mod tests;
 
-use std::{collections::{hash_map::Entry, HashMap}, path::Path, sync::{Arc, Mutex}};
+use std::{collections::{hash_map::Entry, HashMap}, hash::{Hash, Hasher}, path::{Path, PathBuf}, sync::{Arc, Mutex}};
 use crossbeam_channel::Sender;
 use lsp_types::{
     CompletionOptions,
@@ -34,9 +34,46 @@ type Result<T, E = Error> = std::result::Result<T, E>;
 
 type ReadFile = Arc<dyn Fn(&Path) -> Result<String, std::io::Error> + Send + Sync>;
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Clone)]
+#[derive(Debug, Clone)]
 struct FileKey(lsp_types::Url);
 
+impl FileKey {
+    /// Clients can percent-encode any characters of the url, but it still
+    /// refers to the same file.
+    fn file(&self) -> (Option<PathBuf>, Option<&lsp_types::Url>) {
+        match self.0.to_file_path() {
+            Ok(path) if self.0.scheme() == "file" => (Some(path), None),
+            _ => (None, Some(&self.0)),
+        }
+    }
+}
+
+impl PartialEq for FileKey {
+    fn eq(&self, other: &FileKey) -> bool {
+        self.file() == other.file()
+    }
+}
+
+impl Eq for FileKey {}
+
+impl PartialOrd for FileKey {
+    fn partial_cmp(&self, other: &FileKey) -> Option<std::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for FileKey {
+    fn cmp(&self, other: &FileKey) -> std::cmp::Ordering {
+        self.file().cmp(&other.file())
+    }
+}
+
+impl Hash for FileKey {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.file().hash(state);
+    }
+}
+
 impl From<lsp_types::Url> for FileKey {
     fn from(url: lsp_types::Url) -> FileKey {
         FileKey(url)
-- 
2.43.0


From 9124ba96b7733d95493bfdea333cb2a53ad241e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:25 +0000
Subject: [PATCH 40/43] fix: name the output file when it cannot be written

---
 ticc/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticc/src/main.rs b/ticc/src/main.rs
index 19a0a3b..91c9f26 100644
--- a/ticc/src/main.rs
+++ b/ticc/src/main.rs
@@ -96,7 +96,7 @@ fn main() {
             println!("{}", ir);
         } else {
             std::fs::write(&output_file, ir.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
@@ -113,7 +113,7 @@ fn main() {
             println!("{}", result);
         } else {
             std::fs::write(&output_file, result.as_bytes()).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
@@ -149,7 +149,7 @@ fn main() {
             println!("{}", String::from_utf8_lossy(&result));
         } else {
             std::fs::write(&output_file, result).unwrap_or_else(|e| {
-                eprintln!("error: cannot write {}", path.display());
+                eprintln!("error: cannot write {}", output_file.display());
                 eprintln!("    {}", e);
                 std::process::exit(1);
             });
-- 
2.43.0


From 42dbcbb9fccb657502e5e2d81900bd43ca6dda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:25 +0000
Subject: [PATCH 41/43] fix: don't panic when importing a value of a type
 without a name

---
 ticc/src/compiler/kindck.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticc/src/compiler/kindck.rs b/ticc/src/compiler/kindck.rs
index b3687d7..26356b8 100644
--- a/ticc/src/compiler/kindck.rs
+++ b/ticc/src/compiler/kindck.rs
@@ -43,7 +43,10 @@ fn check_ty(defs: &DefSet, ty: &mut ir::Type) {
             for t in ts.iter_mut() {
                 check_ty(defs, t);
             }
-            let def = defs.lookup(*s);
+            let Some(def) = defs.defs.get(s) else {
+                // type def is not recorded if it was missing a name
+                return;
+            };
             match def.kind {
                 ir::DefKind::Type { param_count, .. } => {
                     if ts.len() != param_count {
-- 
2.43.0


From 9e04f375cb5acfc15ab37d7c539ccb386e1cbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:57 +0000
Subject: [PATCH 42/43] fix: don't fold values that are already folded

---
 ticc/src/codegen/gen_core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticc/src/codegen/gen_core.rs b/ticc/src/codegen/gen_core.rs
index 54f1308..475a67d 100644
--- a/ticc/src/codegen/gen_core.rs
+++ b/ticc/src/codegen/gen_core.rs
@@ -480,8 +480,13 @@ impl<'a, 'b> Generator<'a, 'b> {
                 let temp_param_name = self.program.names.next_synthetic();
                 let fold_name = self.program.names.new_fresh("fold");
                 let body = self.gen_expr(l.body().unwrap());
+                // a value that is already folded has nothing left to fold
+                let is_folded = matches!(
+                    self.types[&l.syntax().id()],
+                    ir::Type::Fn(from, _) if matches!(**from, ir::Type::Folded(_, _))
+                );
                 let rec_fold = match &param_ty {
-                    cir::Ty::Named(n, args) => {
+                    cir::Ty::Named(n, args) if !is_folded => {
                         let mut cases = Vec::new();
                         let ctors = &self.type_ctors[n];
                         for ctor in ctors {
-- 
2.43.0


From 64e9096e6d8969ef94a845186e6a2c4e3e1c42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:57 +0000
Subject: [PATCH 43/43] fix: find imported files with spaces at the ends of
 their names

---
 ticc-lsp/src/main.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ticc-lsp/src/main.rs b/ticc-lsp/src/main.rs
index 7a8e1ec..d7e1d52 100644
--- a/ticc-lsp/src/main.rs
+++ b/ticc-lsp/src/main.rs
@@ -459,22 +459,23 @@ impl CompilationModuleResolver {
         let mut url = self.current_key.0.clone();
         url.set_query(None);
         url.set_fragment(None);
-        {
-            // name is a path, characters like `#` and `%` mean nothing special in it
-            let mut segments = url.path_segments_mut().ok()?;
-            segments.pop();
-            for segment in name.split('/') {
-                match segment {
-                    "." => {}
-                    ".." => {
-                        segments.pop_if_empty().pop();
-                    }
-                    segment => {
-                        segments.pop_if_empty().push(segment);
-                    }
+        // name is a path, characters like `#` and `%` mean nothing special in it
+        let mut path = url.path_segments()?.map(str::to_owned).collect::<Vec<_>>();
+        path.pop();
+        for segment in name.split('/') {
+            if path.last().map_or(false, |s| s.is_empty()) {
+                path.pop();
+            }
+            match segment {
+                "." => {}
+                ".." => {
+                    path.pop();
                 }
+                // the url would drop spaces at the end, other characters are escaped by it
+                segment => path.push(segment.replace('%', "%25").replace(' ', "%20")),
             }
         }
+        url.set_path(&path.join("/"));
         Some(FileKey(url))
     }
 }
-- 
2.43.0

