From 16a3897a274f88204c6046d80d0e9bda71ce63e3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:04:53 +0000
Subject: [PATCH 01/25] fix: drop dead stores at the fast level even when
 temporaries fit without packing

Coalescing computes liveness as if the operands of a dead store were never
read and relies on dead store elimination to remove such stores afterwards.
The fast level skipped that step when the bump layout fit, so a dead array
store kept running with an index whose slot had been given to another
variable and could overwrite unrelated temporaries.
---
 sonolus/backend/_opt/lower.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sonolus/backend/_opt/lower.pyx b/sonolus/backend/_opt/lower.pyx
index e8472df..8d0b09c 100644
--- a/sonolus/backend/_opt/lower.pyx
+++ b/sonolus/backend/_opt/lower.pyx
@@ -398,12 +398,14 @@ cdef void allocate_func(Func func, int32_t strategy) except *:
             _pack(func, L, temp_offset)
             _dead_store_elim(func, L)
         elif strategy == ALLOC_TRY_BUMP:
+            # Dead stores must go on both paths: coalescing assumes that nothing
+            # reads the operands of a dead store (e.g. a dead array store's index).
+            L = compute_liveness(func)
             if _bump_fits(func):
                 _bump(func, temp_offset)
             else:
-                L = compute_liveness(func)
                 _pack(func, L, temp_offset)
-                _dead_store_elim(func, L)
+            _dead_store_elim(func, L)
         else:
             raise ValueError(f"Unknown allocation strategy code {strategy}")
         _rewrite_places(func, temp_offset)
-- 
2.43.0


From a4c87e1f7d179723d45367047026c02dc8d3439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 02/25] fix: do not shift switch tests by a negative offset

---
 sonolus/backend/_opt/lower.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sonolus/backend/_opt/lower.pyx b/sonolus/backend/_opt/lower.pyx
index 8d0b09c..3219d78 100644
--- a/sonolus/backend/_opt/lower.pyx
+++ b/sonolus/backend/_opt/lower.pyx
@@ -1887,6 +1887,11 @@ cdef void _normalize_switch(Func func) except *:
             if off_i == 0 and str_i == 1:
                 # Already 0-based; nothing to rewrite -- emit fills the gaps.
                 continue
+        # With a negative offset the subtraction grows the test's magnitude and so
+        # rounds: a test next to a case (1e-17 beside 0) would land exactly on that
+        # case's slot instead of the default. (For offsets >= 0 it is exact.)
+        if off_i < 0:
+            continue
         # Rewrite case conds to (c - off)/stride: 0..k-1 for an exact progression,
         # or a gapped 0..span-1 set for the dense fallback (the emitter fills the
         # holes). Exact int64 math: the stride (>= 1) divides cond - off exactly.
-- 
2.43.0


From c2a82082013de7da7c4b75a73933c3701211f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:32 +0000
Subject: [PATCH 03/25] fix: do not link levels through items shared with other
 collections

---
 sonolus/build/collection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index 41ad349..aa99cd3 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -233,8 +233,11 @@ class Collection:
         self._write_repository_items(base_dir)
 
     def link(self):
-        for level_details in self.categories.get("levels", {}).values():
-            level = level_details["item"]
+        levels = self.categories.get("levels", {})
+        for level_name, level_details in levels.items():
+            # Link a copy, since the details and item may be shared with other collections
+            level = level_details["item"].copy()
+            levels[level_name] = {**level_details, "item": level}
             if isinstance(level["engine"], str):
                 level["engine"] = self.get_item("engines", level["engine"])
             for key, category in (
@@ -243,7 +246,7 @@ class Collection:
                 ("useEffect", "effects"),
                 ("useParticle", "particles"),
             ):
-                use_item = level[key]
+                use_item = level[key] = level[key].copy()
                 if "item" not in use_item:
                     continue
                 use_item_value = use_item["item"]
-- 
2.43.0


From c8e249b805df79f34ec89c5d7880e1520cc96483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:32 +0000
Subject: [PATCH 04/25] fix: keep dots in the names of items loaded from
 packages

---
 sonolus/build/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sonolus/build/collection.py b/sonolus/build/collection.py
index aa99cd3..79fee8f 100644
--- a/sonolus/build/collection.py
+++ b/sonolus/build/collection.py
@@ -220,7 +220,7 @@ class Collection:
             path = Path(zip_entry.filename)
             if path.parts[0] == "sonolus":
                 path = Path(*path.parts[1:])
-            item_name = path.stem
+            item_name = path.name
 
             if self._is_valid_category(dir_name):
                 self.categories[dir_name][item_name] = item_details
-- 
2.43.0


From 474d4c2477f69a3d57d79da99758d70b627a920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:16 +0000
Subject: [PATCH 05/25] fix: rebuild from the resources as loaded instead of
 the previous build's collection

---
 sonolus/build/dev_server.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index 8f2ad69..ce402e4 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import argparse
 import contextlib
+import copy
 import gc
 import http.server
 import importlib
@@ -97,7 +98,7 @@ class ServerState:
     build_dir: Path
     config: BuildConfig
     project_state: ProjectContextState
-    collection: Collection
+    resources: Collection
     last_build_time: float
 
 
@@ -129,17 +130,18 @@ class RebuildCommand:
             start_time = perf_counter()
 
             if path_was_modified_after(server_state.project.resources, server_state.last_build_time):
-                server_state.collection = load_resources_files_to_collection(server_state.project.resources)
+                server_state.resources = load_resources_files_to_collection(server_state.project.resources)
 
             server_state.project_state = ProjectContextState.from_build_config(server_state.config)
             server_state.project = project_module.project
+            collection = copy.deepcopy(server_state.resources)
             build_project_to_existing_collection(
                 server_state.project,
-                server_state.collection,
+                collection,
                 server_state.config,
                 project_state=server_state.project_state,
             )
-            write_collection(server_state.collection, server_state.build_dir, clear=False)
+            write_collection(collection, server_state.build_dir, clear=False)
             server_state.last_build_time = time()
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
@@ -292,12 +294,16 @@ def run_server(
     config: BuildConfig,
     project: Project,
 ):
-    from sonolus.build.cli import build_collection
+    from sonolus.build.cli import write_collection
 
     project_state = ProjectContextState.from_build_config(config)
 
     start_time = perf_counter()
-    collection = build_collection(project, build_dir, config, project_state=project_state)
+    # Rebuilds start from the resources as loaded, since building modifies the collection
+    resources = load_resources_files_to_collection(project.resources)
+    collection = copy.deepcopy(resources)
+    build_project_to_existing_collection(project, collection, config, project_state=project_state)
+    write_collection(collection, build_dir)
     end_time = perf_counter()
     print(f"Build finished in {end_time - start_time:.2f}s")
 
@@ -329,7 +335,7 @@ def run_server(
                 build_dir=build_dir,
                 config=config,
                 project_state=project_state,
-                collection=collection,
+                resources=resources,
                 last_build_time=time(),
             )
 
-- 
2.43.0


From 9509eb39ddcd740b45b876eca7b50b6ab1d7cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:16 +0000
Subject: [PATCH 06/25] fix: notice resources edited during a build or moved to
 another directory

---
 sonolus/build/dev_server.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index ce402e4..b22a7d7 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -128,9 +128,13 @@ class RebuildCommand:
         print("Rebuilding...")
         try:
             start_time = perf_counter()
+            build_time = time()
+            resources_path = project_module.project.resources
 
-            if path_was_modified_after(server_state.project.resources, server_state.last_build_time):
-                server_state.resources = load_resources_files_to_collection(server_state.project.resources)
+            if resources_path != server_state.project.resources or path_was_modified_after(
+                resources_path, server_state.last_build_time
+            ):
+                server_state.resources = load_resources_files_to_collection(resources_path)
 
             server_state.project_state = ProjectContextState.from_build_config(server_state.config)
             server_state.project = project_module.project
@@ -142,7 +146,7 @@ class RebuildCommand:
                 project_state=server_state.project_state,
             )
             write_collection(collection, server_state.build_dir, clear=False)
-            server_state.last_build_time = time()
+            server_state.last_build_time = build_time
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
         except CompilationError:
@@ -299,6 +303,7 @@ def run_server(
     project_state = ProjectContextState.from_build_config(config)
 
     start_time = perf_counter()
+    build_time = time()
     # Rebuilds start from the resources as loaded, since building modifies the collection
     resources = load_resources_files_to_collection(project.resources)
     collection = copy.deepcopy(resources)
@@ -336,7 +341,7 @@ def run_server(
                 config=config,
                 project_state=project_state,
                 resources=resources,
-                last_build_time=time(),
+                last_build_time=build_time,
             )
 
             threading.Thread(target=httpd.serve_forever, daemon=True).start()
-- 
2.43.0


From 604989c5b56a2ad93761752c8845a9a4abdf3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 07/25] fix: decode messages of the served build after a failed
 rebuild

---
 sonolus/build/dev_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sonolus/build/dev_server.py b/sonolus/build/dev_server.py
index b22a7d7..9db8474 100644
--- a/sonolus/build/dev_server.py
+++ b/sonolus/build/dev_server.py
@@ -136,16 +136,17 @@ class RebuildCommand:
             ):
                 server_state.resources = load_resources_files_to_collection(resources_path)
 
-            server_state.project_state = ProjectContextState.from_build_config(server_state.config)
+            project_state = ProjectContextState.from_build_config(server_state.config)
             server_state.project = project_module.project
             collection = copy.deepcopy(server_state.resources)
             build_project_to_existing_collection(
                 server_state.project,
                 collection,
                 server_state.config,
-                project_state=server_state.project_state,
+                project_state=project_state,
             )
             write_collection(collection, server_state.build_dir, clear=False)
+            server_state.project_state = project_state
             server_state.last_build_time = build_time
             end_time = perf_counter()
             print(f"Rebuild completed in {end_time - start_time:.2f} seconds")
-- 
2.43.0


From 1f29710f6e94fbf0003af65847933418322a86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:07 +0000
Subject: [PATCH 08/25] fix: run the else clause of a for loop over a tuple

---
 sonolus/script/internal/visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index b668946..144fcb3 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -767,6 +767,10 @@ class Visitor(ast.NodeVisitor):
                 continue_ctxs = [*self.loop_head_ctxs.pop(), ctx()]
                 break_ctxs.extend(self.break_ctxs.pop())
                 set_ctx(Context.meet(continue_ctxs))
+            for stmt in node.orelse:
+                if not ctx().live:
+                    break
+                self.visit(stmt)
             if break_ctxs:
                 set_ctx(Context.meet([*break_ctxs, ctx()]))
             return
-- 
2.43.0


From a9cd7a7bebad33e9d51a2505247cc5777b30b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:07 +0000
Subject: [PATCH 09/25] fix: apply the conditions of a generator expression
 over a tuple

---
 sonolus/script/internal/visitor.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 144fcb3..a741481 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -568,7 +568,23 @@ class Visitor(ast.NodeVisitor):
             for value in tuple_iter(iterable):
                 set_ctx(ctx().branch(None))
                 self.handle_assign(generator.target, validate_value(value))
-                self.construct_genexpr(others, elt)
+                skip_ctxs = []
+                for if_expr in generator.ifs:
+                    test = self.convert_to_boolean_num(if_expr, self.visit(if_expr))
+                    if test._is_py_():
+                        if test._as_py_():
+                            continue
+                        skip_ctxs.append(ctx())
+                        set_ctx(ctx().into_dead())
+                        break
+                    if_then_ctx = ctx().branch(None)
+                    skip_ctxs.append(ctx().branch(0))
+                    ctx().test = test.ir()
+                    set_ctx(if_then_ctx)
+                if ctx().live:
+                    self.construct_genexpr(others, elt)
+                if skip_ctxs:
+                    set_ctx(Context.meet([*skip_ctxs, ctx()]))
         else:
             if initial_iterator is not None:
                 iterator = initial_iterator
-- 
2.43.0


From d40a86e574d16f701c9ae3c7cfc10fadef8a77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:07 +0000
Subject: [PATCH 10/25] fix: treat names bound by patterns and function
 definitions as written in loops

---
 sonolus/backend/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sonolus/backend/utils.py b/sonolus/backend/utils.py
index 63ca082..9558f2c 100644
--- a/sonolus/backend/utils.py
+++ b/sonolus/backend/utils.py
@@ -86,6 +86,16 @@ class ScanWrites(ast.NodeVisitor):
         if isinstance(node.ctx, ast.Store | ast.Delete):
             self.writes.append(node.id)
 
+    def visit_MatchAs(self, node):
+        # Names captured by patterns aren't Name nodes
+        if node.name is not None:
+            self.writes.append(node.name)
+        self.generic_visit(node)
+
+    def visit_FunctionDef(self, node):
+        self.writes.append(node.name)
+        self.generic_visit(node)
+
 
 def scan_writes(node: ast.AST) -> set[str]:
     visitor = ScanWrites()
-- 
2.43.0


From b1e6adf8b368cce1c7f9404ba1699d09df884650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:07 +0000
Subject: [PATCH 11/25] fix: match an empty sequence pattern against an empty
 tuple

---
 sonolus/script/internal/visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index a741481..1b815f1 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -1043,6 +1043,9 @@ class Visitor(ast.NodeVisitor):
                     true_ctx, false_ctx = self.handle_match_pattern(value, subpattern)
                     false_ctxs.append(false_ctx)
                     set_ctx(true_ctx)
+                if not false_ctxs:
+                    # An empty pattern against a subject known to be empty always matches
+                    return true_ctx, true_ctx.into_dead()
                 return true_ctx, Context.meet(false_ctxs)
             case ast.MatchMapping():
                 raise NotImplementedError("Match mappings are not supported")
-- 
2.43.0


From 4782d00a3e973fb9de37df53202593980984fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:33 +0000
Subject: [PATCH 12/25] fix: compile the operator method behind a record's
 in-place operation

---
 sonolus/script/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/record.py b/sonolus/script/record.py
index 0a8e628..4c152df 100644
--- a/sonolus/script/record.py
+++ b/sonolus/script/record.py
@@ -473,7 +473,9 @@ def _make_inplace_op(op: str, orig_fn):
     @wraps(orig_fn)
     def inplace_op(self, other):
         _compiler_internal_ = True  # noqa: F841
-        self._copy_from_(getattr(self, op)(other))
+        from sonolus.script.internal.visitor import compile_and_call
+
+        self._copy_from_(compile_and_call(getattr(self, op), other))
         return self
 
     return inplace_op
-- 
2.43.0


From 9a2be227d6f7d0453c6b54583e780817bdb9712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:33 +0000
Subject: [PATCH 13/25] fix: skip the rest of a generator expression after a
 condition that is always false

---
 sonolus/script/internal/visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 1b815f1..e37824e 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -615,13 +615,15 @@ class Visitor(ast.NodeVisitor):
                     else:
                         ctx().outgoing[None] = header_ctx
                         set_ctx(ctx().into_dead())
+                        break
                 else:
                     if_then_ctx = ctx().branch(None)
                     if_else_ctx = ctx().branch(0)
                     ctx().test = test.ir()
                     if_else_ctx.outgoing[None] = header_ctx
                     set_ctx(if_then_ctx)
-            self.construct_genexpr(others, elt)
+            if ctx().live:
+                self.construct_genexpr(others, elt)
             ctx().outgoing[None] = header_ctx
             set_ctx(else_ctx)
 
-- 
2.43.0


From 8b9c726e883526bffbce1e334cae83e5ff22b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:05 +0000
Subject: [PATCH 14/25] fix: compile the equality of the fields when comparing
 records

---
 sonolus/script/record.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sonolus/script/record.py b/sonolus/script/record.py
index 4c152df..af75b53 100644
--- a/sonolus/script/record.py
+++ b/sonolus/script/record.py
@@ -362,20 +362,24 @@ class Record(GenericValue, metaclass=RecordMeta):
 
     @meta_fn
     def __eq__(self, other: Any) -> bool:
+        from sonolus.script.internal.visitor import compile_and_call
+
         if not isinstance(other, type(self)):
             return False
         result: Num = Num._accept_(True)
         for field in self._fields_:
-            result = result.and_(field.__get__(self) == field.__get__(other))
+            result = result.and_(compile_and_call(_eq, field.__get__(self), field.__get__(other)))
         return result
 
     @meta_fn
     def __ne__(self, other: Any) -> bool:
+        from sonolus.script.internal.visitor import compile_and_call
+
         if not isinstance(other, type(self)):
             return True
         result: Num = Num._accept_(False)
         for field in self._fields_:
-            result = result.or_(field.__get__(self) != field.__get__(other))
+            result = result.or_(compile_and_call(_ne, field.__get__(self), field.__get__(other)))
         return result
 
     def __hash__(self):
@@ -443,6 +447,14 @@ class _RecordField(SonolusDescriptor):
             instance._value_[self.name]._copy_from_(value)
 
 
+def _eq(a, b):
+    return a == b
+
+
+def _ne(a, b):
+    return a != b
+
+
 _ops_to_inplace_ops = {
     "__add__": "__iadd__",
     "__sub__": "__isub__",
-- 
2.43.0


From 93536508b4012044008ab443847530b7952b24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:34 +0000
Subject: [PATCH 15/25] fix: compile the conversion of run-time values by
 bool()

---
 sonolus/script/internal/builtin_impls.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sonolus/script/internal/builtin_impls.py b/sonolus/script/internal/builtin_impls.py
index 401ad95..3896780 100644
--- a/sonolus/script/internal/builtin_impls.py
+++ b/sonolus/script/internal/builtin_impls.py
@@ -382,17 +382,23 @@ class _Float:
 _float = _Float()
 
 
+def _truth_value(value):
+    # Relies on the compiler to perform the conversion in a boolean context
+    if value:  # noqa: SIM103
+        return True
+    else:
+        return False
+
+
 class _Bool:
     _is_comptime_value_ = True
     _type_mapping_ = Num
 
     @meta_fn
     def __call__(self, value=False):
-        # Relies on the compiler to perform the conversion in a boolean context
-        if validate_value(value):  # noqa: SIM103
-            return True
-        else:
-            return False
+        from sonolus.script.internal.visitor import compile_and_call
+
+        return compile_and_call(_truth_value, validate_value(value))
 
     def __or__(self, other):
         other = validate_value(other)
-- 
2.43.0


From ed0ae5a260d25f3aecc5d2f1a541b318bcf4790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:43 +0000
Subject: [PATCH 16/25] fix: keep effects with unread results when chaining
 switches

---
 sonolus/backend/_opt/midend.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/backend/_opt/midend.pyx b/sonolus/backend/_opt/midend.pyx
index 8c631f4..af2b2b4 100644
--- a/sonolus/backend/_opt/midend.pyx
+++ b/sonolus/backend/_opt/midend.pyx
@@ -4108,7 +4108,9 @@ cdef bint _rsw_block_empty(Func f, int32_t b) noexcept nogil:
     istart = f.blocks[b].instr_start
     icount = f.blocks[b].instr_count
     for i in range(istart, istart + icount):
-        if f.instrs[i].flags & FLAG_STMT_ROOT:
+        # An effect whose stored result is never read is not a statement root (see
+        # _run_dce), but the block is still not empty.
+        if f.instrs[i].flags & (FLAG_STMT_ROOT | FLAG_SIDE_EFFECT):
             return False
     return True
 
-- 
2.43.0


From e411855a264677849a96c9c4caa2b295cae3b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:40 +0000
Subject: [PATCH 17/25] fix: compare records to a plain bool outside
 compilation

---
 sonolus/script/record.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sonolus/script/record.py b/sonolus/script/record.py
index af75b53..5685b3f 100644
--- a/sonolus/script/record.py
+++ b/sonolus/script/record.py
@@ -369,6 +369,8 @@ class Record(GenericValue, metaclass=RecordMeta):
         result: Num = Num._accept_(True)
         for field in self._fields_:
             result = result.and_(compile_and_call(_eq, field.__get__(self), field.__get__(other)))
+        if not ctx():
+            return bool(result)
         return result
 
     @meta_fn
@@ -380,6 +382,8 @@ class Record(GenericValue, metaclass=RecordMeta):
         result: Num = Num._accept_(False)
         for field in self._fields_:
             result = result.or_(compile_and_call(_ne, field.__get__(self), field.__get__(other)))
+        if not ctx():
+            return bool(result)
         return result
 
     def __hash__(self):
-- 
2.43.0


From 8c05240f2a9b4873786aecedb5c12ef4ef7d7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:59 +0000
Subject: [PATCH 18/25] fix: yield nothing from an iterator that never has a
 value

---
 sonolus/script/internal/visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index e37824e..00b8538 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -1333,6 +1333,9 @@ class Visitor(ast.NodeVisitor):
         header = ctx().branch(None)
         set_ctx(header)
         result = self.handle_call(node, iterator.next)
+        if result._present._is_py_() and not result._present._as_py_():
+            # The iterator never has a value, continue after evaluating it
+            return validate_value(None)
         nothing_branch = ctx().branch(0)
         some_branch = ctx().branch(None)
         ctx().test = result._present.ir()
-- 
2.43.0


From b78577b0112431a159c9d2de7e480d90132858d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 19/25] fix: compile the element access of array-likes behind
 unchecked access

---
 sonolus/script/array_like.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sonolus/script/array_like.py b/sonolus/script/array_like.py
index 07be2b0..f7e8cd6 100644
--- a/sonolus/script/array_like.py
+++ b/sonolus/script/array_like.py
@@ -60,7 +60,6 @@ class ArrayLike[T](Sequence[T]):
             value: The value to set.
         """
 
-    @meta_fn
     def get_unchecked(self, index: Num) -> T:
         """Get the element at the given index possibly without bounds checking or conversion of negative indexes.
 
@@ -75,7 +74,6 @@ class ArrayLike[T](Sequence[T]):
         """
         return self[index]
 
-    @meta_fn
     def set_unchecked(self, index: Num, value: T):
         """Set the element at the given index possibly without bounds checking or conversion of negative indexes.
 
-- 
2.43.0


From 970c87e6b9c2613fe7d84c20854525198cdd6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:45 +0000
Subject: [PATCH 20/25] fix: keep the elements when shuffling arrays of records
 outside compilation

---
 sonolus/script/array_like.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/array_like.py b/sonolus/script/array_like.py
index f7e8cd6..98ee0c7 100644
--- a/sonolus/script/array_like.py
+++ b/sonolus/script/array_like.py
@@ -244,7 +244,11 @@ class ArrayLike[T](Sequence[T]):
 
     def shuffle(self):
         """Shuffle the values in the array in place."""
-        random.shuffle(self)  # type: ignore
+        # Not random.shuffle, since outside of compilation that doesn't copy the elements it swaps
+        i = len(self) - 1
+        while i > 0:
+            self.swap_unchecked(i, random.randrange(i + 1))
+            i -= 1
 
     def reverse(self):
         """Reverse the values in the array in place."""
-- 
2.43.0


From aa89a9b2d991cc70808f7c28086ed3fc1b6d3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:40 +0000
Subject: [PATCH 21/25] fix: do not read a variable of a loop's first iteration
 in the place of its later definitions

---
 sonolus/script/internal/context.py | 47 ++++++++++++++++++++++++++----
 sonolus/script/internal/visitor.py |  7 +----
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/sonolus/script/internal/context.py b/sonolus/script/internal/context.py
index 2e859f6..8cdd6eb 100644
--- a/sonolus/script/internal/context.py
+++ b/sonolus/script/internal/context.py
@@ -361,7 +361,7 @@ class Context:
                 header.scope.set_binding(name, loop_binding)
                 header.loop_variables[name] = loop_binding
             else:
-                loop_binding = ValueBinding(value)
+                loop_binding = ValueBinding(value, sources=(binding,))
                 header.scope.set_binding(name, loop_binding)
                 header.loop_variables[name] = loop_binding
         return header
@@ -391,11 +391,20 @@ class Context:
                     value = type(target_value)._accept_(value)
                     target_value._set_(value)
                 else:
-                    value = self.scope.get_value(name)
-                    if target_value is not value and binding.read_count > 0:
+                    incoming = self.scope.get_binding(name)
+                    if (
+                        isinstance(incoming, ValueBinding)
+                        and incoming.value is target_value
+                        and not incoming.is_rebound()
+                    ):
+                        continue
+                    # The definition in the header doesn't hold for every iteration, so it must not be read,
+                    # neither in code we've already gone through nor in what follows (including after the loop).
+                    if binding.read_count > 0:
                         raise RuntimeError(
                             f"Variable '{name}' may have conflicting definitions between loop iterations"
                         )
+                    binding.rebound = True
 
     def map_constant(self, value: Any) -> int:
         with self.project_state.lock:
@@ -552,6 +561,32 @@ def debug_config() -> DebugConfig:
 class ValueBinding:
     value: Value
     read_count: int = 0
+    # Whether this is the binding of a loop header that another iteration may bind to a different value
+    rebound: bool = False
+    # The bindings this one stands for
+    sources: tuple[ValueBinding, ...] = ()
+
+    def _with_sources(self) -> list[ValueBinding]:
+        result = [self]
+        seen = {id(self)}
+        for binding in result:
+            for source in binding.sources:
+                if id(source) not in seen:
+                    seen.add(id(source))
+                    result.append(source)
+        return result
+
+    def mark_read(self):
+        if not self.sources:
+            self.read_count += 1
+            return
+        for binding in self._with_sources():
+            binding.read_count += 1
+
+    def is_rebound(self) -> bool:
+        if not self.sources:
+            return self.rebound
+        return any(binding.rebound for binding in self._with_sources())
 
 
 @dataclass(slots=True)
@@ -585,8 +620,10 @@ class Scope:
         binding = self.get_binding(name)
         match binding:
             case ValueBinding() as b:
+                if b.is_rebound():
+                    raise RuntimeError(f"Variable '{name}' may have conflicting definitions between loop iterations")
                 # we don't need to call _get_() here because _set_() is never called where it could be a problem
-                b.read_count += 1
+                b.mark_read()
                 return b.value
             case ConflictBinding():
                 raise RuntimeError(
@@ -644,7 +681,7 @@ class Scope:
                 continue
             values = [binding.value for binding in bindings]
             if len({id(value) for value in values}) == 1:
-                target_bindings[key] = ValueBinding(values[0])
+                target_bindings[key] = ValueBinding(values[0], sources=tuple(bindings))
                 continue
             types = {type(value) for value in values}
             if len(types) > 1:
diff --git a/sonolus/script/internal/visitor.py b/sonolus/script/internal/visitor.py
index 00b8538..124eda1 100644
--- a/sonolus/script/internal/visitor.py
+++ b/sonolus/script/internal/visitor.py
@@ -1495,12 +1495,7 @@ class Visitor(ast.NodeVisitor):
         while v:
             binding = v.active_ctx.scope.bindings.get(name)
             if binding is not None and type(binding) is not EmptyBinding:
-                if type(binding) is ValueBinding:
-                    binding.read_count += 1
-                    result = binding.value
-                else:
-                    # Delegate to reproduce the error message from the scope
-                    return v.active_ctx.scope.get_value(name)
+                result = v.active_ctx.scope.get_value(name)
                 if v is not self:
                     used_parent_binding_values[name] = result
                 return result
-- 
2.43.0


From e40e6f684fafd7b4e1858204b4acd47ef12e601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 22/25] fix: export values assigned to parts of exported fields

---
 sonolus/script/archetype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 2fa94a7..70c3bd3 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -8,7 +8,7 @@ from enum import Enum, IntEnum, StrEnum
 from types import FunctionType
 from typing import Annotated, Any, ClassVar, NamedTuple, Self, TypedDict, get_origin
 
-from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr, IRStmt
+from sonolus.backend.ir import IRConst, IRExpr, IRInstr, IRPureInstr
 from sonolus.backend.mode import Mode
 from sonolus.backend.ops import Op
 from sonolus.script.bucket import Bucket, Judgment
@@ -55,8 +55,8 @@ class _ExportBackingValue(BackingValue):
     def read(self) -> IRExpr:
         raise NotImplementedError("Exported fields are write-only")
 
-    def write(self, value: IRExpr) -> IRStmt:
-        return IRInstr(Op.ExportValue, [self.index, value])
+    def write(self, value: IRExpr) -> None:
+        ctx().add_statements(IRInstr(Op.ExportValue, [self.index, value]))
 
 
 class _ArchetypeField(SonolusDescriptor):
-- 
2.43.0


From 578e20f4cb83d3e56c2a6db3617755c648f4c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 23/25] fix: keep values that are false in a boolean context in
 level data

---
 sonolus/script/archetype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 70c3bd3..1e2f2fb 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -656,7 +656,9 @@ class _BaseArchetype(metaclass=_BaseArchetypeMeta):
         bound = self._data_constructor_signature_.bind_partial(*args, **kwargs)
         bound.apply_defaults()
         values = {
-            field.name: field.type._accept_(bound.arguments.get(field.name) or zeros(field.type))._get_()
+            field.name: field.type._accept_(
+                zeros(field.type) if bound.arguments.get(field.name) is None else bound.arguments[field.name]
+            )._get_()
             for field in self._imported_fields_.values()
         }
         self._data_ = _ArchetypeLevelData(values=values)
-- 
2.43.0


From fdb27211ba3f63e8c7b435bb282d9322f472dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 24/25] fix: copy what an entity reference in level data refers
 to

---
 sonolus/script/archetype.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sonolus/script/archetype.py b/sonolus/script/archetype.py
index 1e2f2fb..3d19681 100644
--- a/sonolus/script/archetype.py
+++ b/sonolus/script/archetype.py
@@ -1689,6 +1689,14 @@ class EntityRef[A: _BaseArchetype](Record):
         super()._copy_from_(value)
         if hasattr(value, "_ref_"):
             self._ref_ = value._ref_
+        elif hasattr(self, "_ref_"):
+            del self._ref_
+
+    def _copy_(self) -> Self:
+        result = super()._copy_()
+        if hasattr(self, "_ref_"):
+            result._ref_ = self._ref_
+        return result
 
     @classmethod
     def _accepts_(cls, value: Any) -> bool:
-- 
2.43.0


From 34e56f6ca50e26757d37b0db33aba1cc9c41bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 25/25] fix: compile classes written on top of derived
 archetypes for themselves

---
 sonolus/backend/_opt/driver.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sonolus/backend/_opt/driver.pyx b/sonolus/backend/_opt/driver.pyx
index 8324068..3412453 100644
--- a/sonolus/backend/_opt/driver.pyx
+++ b/sonolus/backend/_opt/driver.pyx
@@ -336,7 +336,7 @@ def compile_mode(
         base_archetypes = []
         seen_base_archetypes = set()
         for a in archetypes:
-            base = getattr(a, "_derived_base_", a)
+            base = a.__dict__.get("_derived_base_", a)
             if base not in seen_base_archetypes:
                 seen_base_archetypes.add(base)
                 base_archetypes.append(base)
@@ -386,7 +386,7 @@ def compile_mode(
 
     if archetypes is not None:
         results["archetypes"] = [
-            {**base_archetype_entries[getattr(a, "_derived_base_", a)], "name": a.name, "hasInput": a.is_scored}
+            {**base_archetype_entries[a.__dict__.get("_derived_base_", a)], "name": a.name, "hasInput": a.is_scored}
             for a in archetypes
         ]
 
-- 
2.43.0

