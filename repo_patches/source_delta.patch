From b3f5010446f9981a72d5f99ab7b362fab4bef181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 01/68] fix: splice list-valued `a[]` also inside single-node
 fields

`splice_ast_literals` recursed only into list-valued fields, so e.g.
`q[1 + f(a[args])]` raised `RuntimeError`. It also choked on AST lists that
contain bare values, such as the `None` key in `q[{**d}]`.
---
 mcpyrate/quotes.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..5f9f18e 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -223,16 +223,14 @@ def splice_ast_literals(tree, filename):
                     doit(item)
                     newthing.append(item)
             thing[:] = newthing
-        # As of Python 3.9, `Global` and `Nonlocal` are the only AST node types
-        # where a field contains a `list` of bare strings.
-        elif isinstance(thing, (ast.Global, ast.Nonlocal)):
-            pass
         elif isinstance(thing, ast.AST):
             for fieldname, value in ast.iter_fields(thing):
-                if isinstance(value, list):
-                    doit(value)
-        else:
-            raise TypeError(f"Expected `list` or AST node, got {type(thing)} with value {repr(thing)}")
+                doit(value)
+        # Anything else is a bare value (e.g. an identifier), which may appear in
+        # a field of an AST node, or in a `list` in such a field (e.g. the names in
+        # a `Global`, or the `None` for the `**` in the keys of a `Dict`).
+    if not isinstance(tree, (ast.AST, list)):
+        raise TypeError(f"Expected `list` or AST node, got {type(tree)} with value {repr(tree)}")
     doit(tree)
 
     try:
-- 
2.43.0


From 56c408e28b5a94bf53b5fd6ab6792f021fbc4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 02/68] fix: astify complex numbers

An imaginary literal is a `Constant` like any other, but `q[1j]` raised
`TypeError`.
---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 5f9f18e..c597943 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -712,7 +712,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From fadafef618ad51a906b608dcaf299ab00961fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 03/68] fix: hygienic value lookup cache must keep its key
 alive

The cache is keyed by the `id` of the frozen value, but did not hold a reference
to it. Once the frozen value was garbage-collected, its `id` could be reused by
another one, so `lookup_value` returned the wrong value.
---
 mcpyrate/quotes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index c597943..f5e0931 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -333,8 +333,10 @@ def lookup_value(key):
 
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
-    return _lookup_cache[cachekey]
+        # Keep also a reference to `frozen_value`, so that its `id` cannot be reused for another value.
+        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))
+    _, value = _lookup_cache[cachekey]
+    return value
 
 
 def capture_macro(macro, name):
-- 
2.43.0


From 5e76cf4522eed2e2f5bb958e23e5628f02c16d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 04/68] fix: `temporary_module` must remove also an
 automatically named module

When no `dotted_name` was given, the auto-generated module was never removed
from `sys.modules`. Also, if creating the module failed, the cleanup handler
would delete an unrelated existing entry.
---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..bc99663 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -569,8 +569,9 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    module = create_module(dotted_name, filename, update_parent=update_parent)
+    dotted_name = module.__name__  # may have been auto-generated
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
         try:
-- 
2.43.0


From bb8735bb77e4dccb000ac4c637a884392af95699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 05/68] fix: `split_futureimports` misclassified some
 future-imports

If `body` consisted of future-imports only, the last one was treated as part
of the rest, so `inject_after_futureimports` put code before it. An empty
docstring was not treated as a docstring, hiding the future-imports after it.
---
 mcpyrate/coreutils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..88646bb 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,19 +266,16 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:
         docstring, *body = body
         docstring = [docstring]
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
-    for k, bstmt in enumerate(body):
-        if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+    k = 0
+    while k < len(body) and isfutureimport(body[k]):
+        k += 1
+    return docstring, body[:k], body[k:]
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From e92d5beae70b847daf7b730e55db730867bbace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 06/68] fix: multi-phase compiler must restore `sys.modules`
 also upon an error

If compiling or running a phase raised, the half-initialized temporary module
was left in `sys.modules`, masking the original one.
---
 mcpyrate/multiphase.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..fd5d52e 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -374,6 +374,24 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
+    try:
+        return _expand_phases(tree, module, n, filename=filename, self_module=self_module,
+                              dexpander=dexpander, debug=debug)
+    finally:
+        # restore `sys.modules` to how it was before we began the multi-phase compile for this module
+        if original_module:
+            sys.modules[self_module] = original_module
+        else:
+            try:
+                del sys.modules[self_module]
+            except KeyError:
+                pass
+
+
+def _expand_phases(tree, module, n, *, filename, self_module, dexpander, debug):
+    """Expand phases `n`, ..., `0` of `tree`, running each phase `k >= 1` in the temporary `module`."""
+    c, CS = setcolor, ColorScheme
+
     for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
         if debug:
             print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
@@ -402,13 +420,4 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
             compiler.run(phase_k_tree, module)
 
-    # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-    if original_module:
-        sys.modules[self_module] = original_module
-    else:
-        try:
-            del sys.modules[self_module]
-        except KeyError:
-            pass
-
     return expansion
-- 
2.43.0


From 92ca7df6f9e267fd5f61a5e9f21489eb6d0f653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 07/68] fix: `splice_statements` with a single AST node as
 `template`

The template overwrote `body`, due to a typo.
---
 mcpyrate/splicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 7ff3e19..691c93c 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -132,7 +132,7 @@ def splice_statements(body, template, tag="__paste_here__"):
     if isinstance(body, ast.AST):
         body = [body]
     if isinstance(template, ast.AST):
-        body = [template]
+        template = [template]
     if not body:
         raise ValueError("expected at least one statement in `body`")
     if not template:
-- 
2.43.0


From 4ee36df3a1b88d9e3262b56216486fac4204cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 08/68] fix: `splice_dialect` must emit a combined docstring as
 a statement

When both the template and the body had a docstring, the result was a bare
`Constant` in a statement position, which does not compile.
---
 mcpyrate/splicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 691c93c..9ba80a8 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -266,7 +266,8 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
         template_doc = getdocstring(template_docstring)
         sep = "\n" + ("-" * 79) + "\n"
         new_doc = user_doc + sep + template_doc
-        new_docstring = ast.copy_location(ast.Constant(value=new_doc),
+        new_docstring = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Constant(value=new_doc),
+                                                                           user_docstring[0])),
                                           user_docstring[0])
         docstring = [new_docstring]
     else:
-- 
2.43.0


From 2b851ca5b8606802f4ebbf692525913b6ff2c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 09/68] fix: `getdocstring` must ignore constants that are not
 strings

---
 mcpyrate/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..85e3f10 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -189,7 +189,8 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            # Any other constant, such as the `...` in a placeholder body, is not a docstring.
+            return docstring_node.value if type(docstring_node.value) is str else None
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From 90e62a019efbeff185ddcba34bf6e285e6967e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 10/68] fix: `match_syspath` must match whole path components,
 deepest first

A string prefix test matched `/a/lib2/x.py` to `/a/lib`, yielding a wrong package
name. Also, relative entries of `sys.path` were sorted before resolving them, so a
shallower entry could win.
---
 mcpyrate/coreutils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 88646bb..47ed1c9 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -62,11 +62,13 @@ def match_syspath(filename):
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
     def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
-            return root_path
+        return -len(pathlib.Path(s).parts), s
+    # Resolve before sorting; a relative entry may be deeper than it looks (e.g. the `""` for the cwd).
+    root_paths = {str(pathlib.Path(root_path).expanduser().resolve()) for root_path in sys.path}
+    for root_path in sorted(root_paths, key=sortkey):
+        # Match whole path components only; `/a/lib` does not contain `/a/lib2/x.py`.
+        if absolute_filename == root_path or absolute_filename.startswith(os.path.join(root_path, "")):
+            return pathlib.Path(root_path)
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
 
-- 
2.43.0


From 5ba8f0ca504607ef7384509f2841219be559394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 11/68] fix: `rename` must rename also in `match` patterns and
 type parameters

The `**rest` of a mapping pattern, the keyword attributes of a class pattern, and
PEP 695 type parameters hold names, but were skipped.
---
 mcpyrate/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 85e3f10..cb49386 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -9,7 +9,7 @@ import ast
 from contextlib import contextmanager
 import uuid
 
-from .astcompat import MatchAs, MatchStar
+from .astcompat import MatchAs, MatchClass, MatchMapping, MatchStar, ParamSpec, TypeVar, TypeVarTuple
 from .colorizer import colorize, ColorScheme
 from . import markers
 from . import unparser
@@ -142,6 +142,14 @@ def rename(oldname, newname, tree):
             elif T in (MatchAs, MatchStar):  # Python 3.10+: `match`/`case` (pattern matching)
                 if tree.name == oldname:
                     tree.name = newname
+            elif T is MatchMapping:
+                if tree.rest == oldname:
+                    tree.rest = newname
+            elif T is MatchClass:
+                tree.kwd_attrs = [newname if attr == oldname else attr for attr in tree.kwd_attrs]
+            elif T in (TypeVar, ParamSpec, TypeVarTuple):  # Python 3.12+: type parameters
+                if tree.name == oldname:
+                    tree.name = newname
             # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.
             return self.generic_visit(tree)
     return Renamer().visit(tree)
-- 
2.43.0


From a519e450ba6154c38443059b3ea74ba400c8a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 12/68] fix: `Bunch` must raise `AttributeError` for a missing
 attribute

It raised `KeyError`, which broke `hasattr`, three-argument `getattr`, and
(by infinite recursion) `copy.copy`.
---
 mcpyrate/bunch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index 9277e4a..f482802 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -32,7 +32,10 @@ class Bunch:
         self._data = other.copy()._data
 
     def __getattr__(self, name):
-        return self._data[name]
+        # The internal attributes are missing only if `__init__` has not run yet (e.g. during `copy.copy`).
+        if name not in ("_data", "_reserved_names") and name in self._data:
+            return self._data[name]
+        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'")
     def __setattr__(self, name, value):
         if name in ("_data", "_reserved_names"):
             return super().__setattr__(name, value)
@@ -40,6 +43,8 @@ class Bunch:
             raise AttributeError(f"Cannot write to reserved attribute '{name}'")
         self._data[name] = value
     def __delattr__(self, name):
+        if name not in self._data:
+            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{name}'")
         del self._data[name]
 
     # Container, Iterable, Sized
-- 
2.43.0


From 12033be45c70f2230c72f987b9bf05d04344522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 13/68] fix: `fix_ctx` must handle a node instance shared
 between siblings

The context overrides are keyed by the `id` of the node, so if the same `Name`
instance appeared e.g. as both the target and the value of an `Assign`, both got
the same `ctx`, even with `copy_seen_nodes=True`. Also, the shallow copies shared
their lists of children with the original.
---
 mcpyrate/astfixers.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 78545f8..1a09705 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -5,7 +5,7 @@ __all__ = ["fix_ctx", "fix_locations"]
 
 from ast import (AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
                  Delete, For, Load, Store, Subscript, comprehension,
-                 iter_child_nodes, withitem)
+                 iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
 from .astcompat import NamedExpr, TypeAlias
@@ -19,9 +19,12 @@ class _CtxFixer(walkers.ASTTransformer):
     def reset(self, **bindings):
         super().reset(**bindings)
         self._seen = set()
+        self._placed = set()
 
     def transform(self, tree):
         tree = self._fix_one(tree)
+        if self.copy_seen_nodes:
+            self._unshare_children(tree)
         self._setup_subtree_contexts(tree)
         return self.generic_visit(tree)
 
@@ -33,11 +36,38 @@ class _CtxFixer(walkers.ASTTransformer):
                 # global postprocess pass. Note only nodes whose `ctx` we have
                 # already updated are considered seen.
                 if id(tree) in self._seen:
-                    tree = copy(tree)
+                    tree = self._copy(tree)
             tree.ctx = self.state.ctxclass()
             self._seen.add(id(tree))
         return tree
 
+    def _copy(self, tree):
+        """Shallow-copy `tree`, but give the copy its own lists of children."""
+        tree = copy(tree)
+        for fieldname, value in iter_fields(tree):
+            if isinstance(value, list):
+                setattr(tree, fieldname, copy(value))
+        return tree
+
+    def _unshare_children(self, tree):
+        """Shallow-copy any children of `tree` that have a `ctx` and already appeared as a child elsewhere.
+
+        The context overrides are identified by the `id` of the node, so this must be
+        done before setting them up. E.g. in an `Assign`, the same node instance may
+        appear both as a target and as the value.
+        """
+        def unshare(node):
+            if "ctx" in getattr(type(node), "_fields", ()):
+                if id(node) in self._placed:
+                    node = self._copy(node)
+                self._placed.add(id(node))
+            return node
+        for fieldname, value in iter_fields(tree):
+            if isinstance(value, list):
+                value[:] = [unshare(elt) for elt in value]
+            else:
+                setattr(tree, fieldname, unshare(value))
+
     def _setup_subtree_contexts(self, tree):
         """Autoselect correct `ctx` class for subtrees of `tree`."""
         # The default ctx class is `Load`. We set up any `Store` and `Del`, as
-- 
2.43.0


From 41b40e47980dfb53073755c2bc4fdb844679ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 14/68] fix: unparse dictionary unpacking

`{**d}` raised `UnparserError`.
---
 mcpyrate/unparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 07ccdad..56742c6 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -733,8 +733,11 @@ class Unparser:
         self.write("{")
         def write_pair(pair):
             (k, v) = pair
-            self.dispatch(k)
-            self.write(": ")
+            if k is None:  # dictionary unpacking, `{**v}`
+                self.write("**")
+            else:
+                self.dispatch(k)
+                self.write(": ")
             self.dispatch(v)
         interleave(lambda: self.write(", "), write_pair, zip(t.keys, t.values))
         self.write("}")
-- 
2.43.0


From 78ca3df05809f1ea8e1ba41c5145c01629d3c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 15/68] fix: unparse type parameters of functions and classes

In Python 3.12+, they were silently dropped.
---
 mcpyrate/unparser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 56742c6..0b5a11e 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -489,6 +489,7 @@ class Unparser:
         class_str = (self.maybe_colorize_python_keyword("class ") +
                      self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(class_str, lineno_node=t)
+        self.__type_params_helper(t)
         if t.bases or t.keywords:
             self.write("(")
         comma = False
@@ -533,8 +534,10 @@ class Unparser:
                     self.write(setcolor())
 
         def_str = (self.maybe_colorize_python_keyword(fill_suffix) +
-                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME) + "(")
+                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(def_str, lineno_node=t)
+        self.__type_params_helper(t)
+        self.write("(")
         self.dispatch(t.args)
         self.write(")")
         if t.returns:
@@ -1147,13 +1150,17 @@ class Unparser:
         self.fill(lineno_node=t)
         self.write(self.maybe_colorize_python_keyword("type "))  # `type` is a soft keyword; only acts like a keyword in the `type` statement
         self.dispatch(t.name)
-        if t.type_params:
-            self.write("[")
-            interleave(lambda: self.write(", "), self.dispatch, t.type_params)
-            self.write("]")
+        self.__type_params_helper(t)
         self.write(" = ")
         self.dispatch(t.value)
 
+    def __type_params_helper(self, t):
+        type_params = getattr(t, "type_params", None)  # Python 3.12+, and macro-generated nodes might not have it
+        if type_params:
+            self.write("[")
+            interleave(lambda: self.write(", "), self.dispatch, type_params)
+            self.write("]")
+
     def _TypeVar(self, t):
         # https://docs.python.org/3/library/typing.html#typing.TypeVar
         self.write(t.name)
-- 
2.43.0


From 59342ca76e4f9a18ed018c99179855f3af8ca835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 16/68] fix: unparse f-strings containing braces, backslashes
 or control characters

The constant parts of an f-string were not properly escaped, and an expression
that starts with a brace was unparsed as an escaped brace.
---
 mcpyrate/unparser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 0b5a11e..26e7696 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -849,7 +849,17 @@ class Unparser:
         def c(text):
             return self.maybe_colorize(text, ColorScheme.STRING)
         self.write(c("{"))
-        self.dispatch(t.value)
+        # A literal `{{` means an escaped brace, so if the expression starts with a brace, add a space.
+        original_file = self.f
+        self.f = io.StringIO()
+        try:
+            self.dispatch(t.value)
+            value = self.f.getvalue()
+        finally:
+            self.f = original_file
+        if value.startswith("{"):
+            self.write(" ")
+        self.write(value)
         if t.conversion == 115:
             self.write(c("!s"))
         elif t.conversion == 114:
@@ -862,7 +872,7 @@ class Unparser:
             raise ValueError(f"Don't know how to unparse conversion code {t.conversion}")
         if t.format_spec:
             self.write(c(":"))
-            self._JoinedStr_helper(t.format_spec)
+            self._JoinedStr_helper(t.format_spec, in_format_spec=True)
         self.write(c("}"))
 
     def _JoinedStr(self, t):
@@ -870,9 +880,12 @@ class Unparser:
         self._JoinedStr_helper(t)
         self.write(self.maybe_colorize("'", ColorScheme.STRING))
 
-    def _JoinedStr_helper(self, t):
+    def _JoinedStr_helper(self, t, in_format_spec=False):
         def escape(s):
-            return s.replace("'", r"\'").replace("\n", r"\n")
+            s = repr('"' + s)[2:-1]  # with a double quote in it, `repr` always uses single quotes
+            if in_format_spec:  # doubled braces have no special meaning here
+                return s.replace("{", r"\x7b").replace("}", r"\x7d")
+            return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
             if type(v) is ast.Constant:
-- 
2.43.0


From 02174c778e1f2117567b5f3752b26362690dd494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:14 +0000
Subject: [PATCH 17/68] fix: unparse an empty tuple as a subscript

`a[()]` became `a[]`, which is a syntax error.
---
 mcpyrate/unparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 26e7696..591d732 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -902,7 +902,8 @@ class Unparser:
         self.write("[")
         # Python 3.9+: Omit parentheses for a tuple directly inside a Subscript slice.
         # See https://bugs.python.org/issue34822
-        if type(t.slice) is ast.Tuple:
+        # The empty tuple needs its parentheses.
+        if type(t.slice) is ast.Tuple and t.slice.elts:
             self.__Tuple_helper(t.slice)
         else:
             self.dispatch(t.slice)
-- 
2.43.0


From 03d901306a4beb5cba190febc90fc212f11f36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 18/68] fix: unparse a tuple as the only context manager of a
 `with`

`with ((a, b)):` became `with (a, b):`, which means two context managers.
---
 mcpyrate/unparser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 591d732..325ee70 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -605,7 +605,7 @@ class Unparser:
 
     def _With(self, t):
         self.fill(self.maybe_colorize_python_keyword("with "), lineno_node=t)
-        interleave(lambda: self.write(", "), self.dispatch, t.items)
+        self.__withitems_helper(t.items)
         self.enter()
         self.dispatch(t.body)
         self.leave()
@@ -613,11 +613,20 @@ class Unparser:
 
     def _AsyncWith(self, t):
         self.fill(self.maybe_colorize_python_keyword("async with "), lineno_node=t)
-        interleave(lambda: self.write(", "), self.dispatch, t.items)
+        self.__withitems_helper(t.items)
         self.enter()
         self.dispatch(t.body)
         self.leave()
 
+    def __withitems_helper(self, items):
+        # A parenthesized tuple alone would mean several context managers.
+        needs_parens = len(items) == 1 and type(items[0].context_expr) is ast.Tuple and not items[0].optional_vars
+        if needs_parens:
+            self.write("(")
+        interleave(lambda: self.write(", "), self.dispatch, items)
+        if needs_parens:
+            self.write(")")
+
     # expr
     def _NamedExpr(self, t):  # Python 3.8+
         self.write("(")
-- 
2.43.0


From 5a350a077ff1091b19452cc6ead17b889470ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 19/68] fix: unparse nested or-patterns, as-patterns, and
 signed numbers in patterns

The parentheses were missing around an or-pattern or an as-pattern nested in
another one, and superfluous (a syntax error) in e.g. `case -1 + 2j` or
`case {-1: x}`.
---
 mcpyrate/unparser.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 325ee70..5ce4056 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1094,7 +1094,28 @@ class Unparser:
         self.leave()
 
     def _MatchValue(self, t):
-        self.dispatch(t.value)
+        self.__pattern_value_helper(t.value)
+
+    def __pattern_value_helper(self, t):
+        # The parts of a signed or complex number cannot be parenthesized in a pattern.
+        if type(t) is ast.BinOp:
+            self.__pattern_value_helper(t.left)
+            self.write(" " + self.binop[t.op.__class__.__name__] + " ")
+            self.__pattern_value_helper(t.right)
+        elif type(t) is ast.UnaryOp:
+            self.write(self.unop[t.op.__class__.__name__])
+            self.dispatch(t.operand)
+        else:
+            self.dispatch(t)
+
+    def __subpattern_helper(self, t):
+        # An or-pattern or an as-pattern inside another one needs parentheses.
+        needs_parens = type(t) is ast.MatchOr or (type(t) is ast.MatchAs and t.pattern is not None)
+        if needs_parens:
+            self.write("(")
+        self.dispatch(t)
+        if needs_parens:
+            self.write(")")
 
     def _MatchSingleton(self, t):
         self.write(self.maybe_colorize(repr(t.value), ColorScheme.NAMECONSTANT))  # None, True or False.
@@ -1115,7 +1136,7 @@ class Unparser:
         self.write("{")
         def write_kp(item):
             k, p = item
-            self.dispatch(k)
+            self.__pattern_value_helper(k)
             self.write(": ")
             self.dispatch(p)
         interleave(lambda: self.write(", "), write_kp, zip(t.keys, t.patterns))
@@ -1152,16 +1173,12 @@ class Unparser:
                 self.write(t.name)
             else:
                 # The or-pattern usually doesn't use parentheses, but when named, they are useful.
-                if type(t.pattern) is ast.MatchOr:
-                    self.write("(")
-                self.dispatch(t.pattern)
-                if type(t.pattern) is ast.MatchOr:
-                    self.write(")")
+                self.__subpattern_helper(t.pattern)
                 self.write(" as ")
                 self.write(t.name)
 
     def _MatchOr(self, t):
-        interleave(lambda: self.write(" | "), self.dispatch, t.patterns)
+        interleave(lambda: self.write(" | "), self.__subpattern_helper, t.patterns)
 
     # Python 3.12+: `type` statement (type aliases)
     #     https://docs.python.org/3/library/ast.html#type-parameters
-- 
2.43.0


From cf1b3af12e0b6ce4b6018425917b734eb4c0694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 20/68] fix: unparse `Expression`

Its body is a single node, not a list, so unparsing it raised `TypeError`.
---
 mcpyrate/unparser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 5ce4056..044980e 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -297,12 +297,10 @@ class Unparser:
             self.fill(self.maybe_colorize(label, ColorScheme.INVISIBLENODE),
                       lineno_node=t)
             self.enter()
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)  # for `Expression`, just one node
             self.leave()
         else:
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)
 
     # stmt
     def _Expr(self, t):
-- 
2.43.0


From 85c6d72564e392326a397b2fbf9e99f3541b0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 21/68] fix: a dialect-import must not swallow the lines
 following it

When scanning the source text for dialect-imports, the match extended over the
following lines, up to the last line before a parenthesis or a backslash. So the
source transformers of any further dialects imported there were skipped, and
dialect-specific surface syntax there caused a `SyntaxError`.
---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..9032318 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from[ \t]+([.0-9a-zA-Z_]+)[ \t]+import dialects,[ \t]+([^(\\\n]+)$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From 5e9be70589369096e55f7fd8dc9c1c4ca2f2df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:21 +0000
Subject: [PATCH 22/68] fix: scrub_uuid must remove only hex digit suffixes

---
 mcpyrate/utils.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index cb49386..9fe84af 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -56,13 +56,9 @@ def scrub_uuid(string):
     idx = string.rfind("_")
     if idx != -1:
         maybe_uuid = string[(idx + 1):]
-        if len(maybe_uuid) == 32:
-            try:
-                _ = int(maybe_uuid, base=16)
-            except ValueError:
-                pass
-            else:  # yes, it was an uuid
-                return string[:idx]
+        # Not by `int(..., base=16)`, which accepts also a sign, surrounding whitespace, a "0x" prefix, ...
+        if len(maybe_uuid) == 32 and all(c in "0123456789abcdefABCDEF" for c in maybe_uuid):
+            return string[:idx]
     return string
 
 
-- 
2.43.0


From 920d3f1df8cb679905ee0a0d79a316730826222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 23/68] fix: allow the key 'self' in a Bunch

---
 mcpyrate/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index f482802..3e38632 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -17,7 +17,7 @@ class Bunch:
         assert b.cat == "meow"
         assert b.dog == "woof"
     """
-    def __init__(self, **bindings):
+    def __init__(self, /, **bindings):
         self._data = bindings
         self._reserved_names = []
         self._reserved_names = dir(self)
@@ -82,7 +82,7 @@ class Bunch:
         return self._data.popitem()
     def clear(self):
         return self._data.clear()
-    def update(self, **bindings):
+    def update(self, /, **bindings):
         self._data.update(**bindings)
     def setdefault(self, name, *default):
         return self._data.setdefault(name, *default)
-- 
2.43.0


From c10ba140af959c2bd37e0058692148dafbe0ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 24/68] fix: pycachecleaner must not follow symbolic links

---
 mcpyrate/pycachecleaner.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..604fd97 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -37,7 +37,13 @@ def _delete_directory_recursively(path):
 
     Ignores `FileNotFoundError`, but other errors raise. If an error occurs,
     some files and directories may already have been deleted.
+
+    Symbolic links are deleted as links; whatever they point to is left alone.
     """
+    if os.path.islink(path):
+        os.unlink(path)
+        return
+
     for root, dirs, files in os.walk(path, topdown=False, followlinks=False):
         for x in files:
             try:
@@ -47,7 +53,10 @@ def _delete_directory_recursively(path):
 
         for x in dirs:
             try:
-                os.rmdir(os.path.join(root, x))
+                if os.path.islink(os.path.join(root, x)):
+                    os.unlink(os.path.join(root, x))
+                else:
+                    os.rmdir(os.path.join(root, x))
             except FileNotFoundError:
                 pass
 
-- 
2.43.0


From ee4f878b6fb9f7b99732452dab953a4c12f5cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 25/68] fix: expand decorator macros on async function
 definitions

The manual lists them among the nodes a decorator macro may receive.
---
 mcpyrate/expander.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 31b1727..e2ee64c 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -273,6 +273,9 @@ class MacroExpander(BaseMacroExpander):
     def visit_FunctionDef(self, functiondef):
         return self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        return self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         """Detect a decorator macro invocation.
 
@@ -479,6 +482,9 @@ class MacroCollector(NodeVisitor):
     def visit_FunctionDef(self, functiondef):
         self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         macros, others = self.expander._detect_macro_items(decorated.decorator_list, "decorator")
         if macros:
-- 
2.43.0


From 169e5b1e0fb62ceb1a916fd4837f4eab599296ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 26/68] fix: MacroCollector must accept ordinary calls that are
 subscripted

E.g. `f()[0]` raised SyntaxError, though it is not a macro invocation.
---
 mcpyrate/expander.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index e2ee64c..25cb2e7 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -443,8 +443,10 @@ class MacroCollector(NodeVisitor):
 
     def visit_Subscript(self, subscript):
         candidate = subscript.value
-        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
+        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename,
+                                                     _validate_call_syntax=False)
         if self.expander.ismacrocall(macroname, macroargs, "expr"):
+            macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
             key = (macroname, "expr")
             if key not in self._seen:
                 self.collected.append(key)
-- 
2.43.0


From 017fe26cda1f647a84ac5530e5cde668975a666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 27/68] fix: pass an empty list of macro arguments to
 identifier macros

As documented, `args` is always a list.
---
 mcpyrate/expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 25cb2e7..f182665 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -376,7 +376,7 @@ class MacroExpander(BaseMacroExpander):
             def ismodified(tree):
                 return not (type(tree) is Name and tree.id == macroname)
             with self._recursive_mode(False):
-                kw = {"args": None}
+                kw = {"args": []}
                 sourcecode = unparse_with_fallbacks(name, debug=True, color=True, expander=self)
                 new_tree = self.expand("name", name, macroname, name, sourcecode=sourcecode, kw=kw)
             if new_tree is None:
-- 
2.43.0


From a264b21c8f5d3bcb137b135927ab15a453d10ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 28/68] fix: honor the optimize setting when compiling higher
 phases

It was accepted and documented, but never used.
---
 mcpyrate/multiphase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index fd5d52e..b34ab6c 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -376,7 +376,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
 
     try:
         return _expand_phases(tree, module, n, filename=filename, self_module=self_module,
-                              dexpander=dexpander, debug=debug)
+                              dexpander=dexpander, debug=debug, _optimize=_optimize)
     finally:
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module
         if original_module:
@@ -388,7 +388,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
                 pass
 
 
-def _expand_phases(tree, module, n, *, filename, self_module, dexpander, debug):
+def _expand_phases(tree, module, n, *, filename, self_module, dexpander, debug, _optimize):
     """Expand phases `n`, ..., `0` of `tree`, running each phase `k >= 1` in the temporary `module`."""
     c, CS = setcolor, ColorScheme
 
@@ -418,6 +418,6 @@ def _expand_phases(tree, module, n, *, filename, self_module, dexpander, debug):
             # Compile the current tree, and run it in the namespace of the temporary module. This
             # gives us the temporary higher-phase module, which allows us to compile the next phase.
             # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module)
+            compiler.run(phase_k_tree, module, optimize=_optimize)
 
     return expansion
-- 
2.43.0


From 70c06d6c69f549c528a14e032e7d642a30b22565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 29/68] fix: report nested macro use sites also when the cause
 is a falsy exception

---
 mcpyrate/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/core.py b/mcpyrate/core.py
index ceaf117..6abc5db 100644
--- a/mcpyrate/core.py
+++ b/mcpyrate/core.py
@@ -273,7 +273,7 @@ class BaseMacroExpander(NodeTransformer):
         # If something went wrong, generate a standardized macro use site report.
         except Exception as err:
             msg = f"{loc}\nin {syntax} macro invocation for '{macroname}'"
-            if isinstance(err, MacroApplicationError) and err.__cause__:
+            if isinstance(err, MacroApplicationError) and err.__cause__ is not None:
                 # Telescope nested use site reports, by keeping the original
                 # traceback and `__cause__`, but combining the messages.
                 #
-- 
2.43.0


From 0d09977ff9af09ccee11fab01f1458a1c6ed36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 30/68] fix: keep hygienic captures of equal values distinct
 when compiled

---
 mcpyrate/quotes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index f5e0931..a9d7b7e 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -296,6 +296,10 @@ def capture_value(value, name):
     # and serialization.
     #
     frozen_value = pickle.dumps(value)
+    # Python's compiler merges equal constants, but each capture must remain
+    # distinct. So make the frozen value unique; `pickle` ignores any bytes
+    # that come after the end of the pickled data.
+    frozen_value += gensym("").encode()
     return ast.Call(_mcpyrate_quotes_attr("lookup_value", force_import=True),
                     [ast.Tuple(elts=[ast.Constant(value=name),
                                      ast.Constant(value=frozen_value)])],
-- 
2.43.0


From cdc8c98fc84e62e8d340dc812490065907e6bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 31/68] fix: multiphase_expand: restore the sys.modules entry
 also if it is a false value

---
 mcpyrate/multiphase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index b34ab6c..77da4f6 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -354,7 +354,8 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # import system as a blank module instance, to be filled in by an exec
     # after compilation is done), record the original module object, so we
     # can reinstate it once we're done.
-    if self_module in sys.modules:
+    was_in_sys_modules = self_module in sys.modules  # the entry itself may be false, e.g. `None` to block the import
+    if was_in_sys_modules:
         original_module = sys.modules[self_module]
     else:
         original_module = None
@@ -379,7 +380,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
                               dexpander=dexpander, debug=debug, _optimize=_optimize)
     finally:
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-        if original_module:
+        if was_in_sys_modules:
             sys.modules[self_module] = original_module
         else:
             try:
-- 
2.43.0


From 536571ab3d81ba5f5c7a404c9f6ef66f138a4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 32/68] fix: path_stats ignores an import cache with missing or
 damaged entries

---
 mcpyrate/importer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..4907b62 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -139,14 +139,13 @@ def path_stats(path, _stats_cache=None):
         with open(macroimport_cache_path, "rb") as importcachefile:
             data = pickle.load(importcachefile)
         if data["st_mtime_ns"] == stat_result.st_mtime_ns:
+            macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
+            has_relative_macroimports = data["has_relative_macroimports"]
             macroimport_cache_valid = True
     except Exception:
         pass
 
-    if macroimport_cache_valid:
-        macro_and_dialect_imports = data["macroimports"] + data["dialectimports"]
-        has_relative_macroimports = data["has_relative_macroimports"]
-    else:
+    if not macroimport_cache_valid:
         # This can be slow, the point of `.pyc` is to avoid the parse-and-compile cost.
         # We do save the macro-expansion cost, though, and that's likely much more expensive.
         #
-- 
2.43.0


From e850a064d0fc7af9b74254c2d468213a54fadab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 33/68] fix: recognize a dialect-import also if a comment with
 parentheses follows it

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 9032318..31c8bfc 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from[ \t]+([.0-9a-zA-Z_]+)[ \t]+import dialects,[ \t]+([^(\\\n]+)$",
+_dialectimport = re.compile(r"^from[ \t]+([.0-9a-zA-Z_]+)[ \t]+import dialects,[ \t]+([^(\\\n#]+(?:#[^\n]*)?)$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From 1fd78eb059dd8694d7d7affc686bd8faee581a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 34/68] fix: temporary_module: detach the module from its
 package also if it is already unregistered

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index bc99663..12e3094 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -575,7 +575,8 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
         yield module
     finally:
         try:
-            del sys.modules[dotted_name]
+            # The module may be already gone, if the body of the `with` has removed it.
+            sys.modules.pop(dotted_name, None)
 
             # The standard importer doesn't do this, but it seems nice for symmetry,
             # considering the use case.
-- 
2.43.0


From 3982b0eebb5c649a71573cbfb7463ee38b1233c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 35/68] fix: create_module: accept a parent package that is a
 false value

---
 mcpyrate/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 12e3094..8036626 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -533,7 +533,7 @@ def create_module(dotted_name=None, filename=None, *, update_parent=True):
         packagename, finalcomponent = dotted_name.rsplit(".", maxsplit=1)
         package = sys.modules.get(packagename, None)
 
-        if not package:
+        if package is None:
             raise ModuleNotFoundError(f"while dynamically creating module '{dotted_name}': its parent package '{packagename}' not found in `sys.modules`")
 
         module.__package__ = packagename
-- 
2.43.0


From 82e9d2a77e6ac7644a0dc2e1d956569e8c82ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 36/68] fix: run: accept modules that have no __file__

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 8036626..fc07a71 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -424,7 +424,8 @@ def run(source, module=None, optimize=-1):
             err = ModuleNotFoundError(f"Module '{dotted_name}' not found in `sys.modules`")
             err.__suppress_context__ = True
             raise err
-    filename = module.__file__
+    # Not all modules have a file (e.g. built-in modules, namespace packages, and `__main__` in an interactive session).
+    filename = getattr(module, "__file__", None) or f"<module '{module.__name__}'>"
     self_module = module.__name__
 
     if isinstance(source, CodeType):  # already compiled?
-- 
2.43.0


From 8eb228cb0c896113ce42d46dbdbb4262d0951adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:09 +0000
Subject: [PATCH 37/68] fix: step_expansion: show also macro results that
 cannot be dumped

---
 mcpyrate/debug.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/debug.py b/mcpyrate/debug.py
index 1c55fed..5a21e1c 100644
--- a/mcpyrate/debug.py
+++ b/mcpyrate/debug.py
@@ -91,7 +91,11 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
             raise ValueError(f"unknown argument {repr(v)}")
 
         if v == "dump":
-            formatter = functools.partial(dump, include_attributes=True, color=True)
+            # A macro may return also e.g. `None` or an iterable, which cannot be dumped.
+            def formatter(tree):
+                if isinstance(tree, (ast.AST, list)):
+                    return dump(tree, include_attributes=True, color=True)
+                return repr(tree)
         elif v == "detailed":
             print_details = True
 
-- 
2.43.0


From 697e274c77e53f38fc818827c036cb78df831a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 38/68] fix: expand1sq, expandsq: make the block mode work

The tree given to expand1s/expands was the assignment generated by q
(which cannot be unquoted), and the result was sent to the block mode
of q without an asname, so any use of the block mode raised an error.
Expand in the right-hand side of the assignment, like the r variants do.
---
 mcpyrate/metatools.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..d2f75a4 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -177,17 +177,23 @@ def expand1sq(tree, *, syntax, **kw):
 
     `with expand1sq as quoted` has the corresponding effect on a block.
     but does not factor into `q` and `expand1s`, because the quote is
-    applied first, but with the expander outside of it.
+    applied first, but with the expander outside of it. Also, block mode
+    `q` generates an `ast.Assign`. The expander is applied to its RHS.
 
     If your tree is quasiquoted, use `expands1` instead.
     """
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expand1sq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:  # the asname was meant for `q`, `expand1s` doesn't take it.
-        kw["optional_vars"] = None
-    return expand1s(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expand1s(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        kw = dict(kw)
+        kw["optional_vars"] = None  # the asname was meant for `q`, `expand1s` doesn't take it.
+        tree.value = expand1s(tree.value, syntax="expr", **kw)  # the RHS is an expression, representing a list of statements
+        return tree
 
 
 def expandsq(tree, *, syntax, **kw):
@@ -203,7 +209,8 @@ def expandsq(tree, *, syntax, **kw):
 
     `with expandsq as quoted` has the corresponding effect on a block.
     but does not factor into `q` and `expands`, because the quote is
-    applied first, with the expander outside of it.
+    applied first, with the expander outside of it. Also, block mode
+    `q` generates an `ast.Assign`. The expander is applied to its RHS.
 
     If your tree is quasiquoted, use `expands` instead.
 
@@ -212,10 +219,15 @@ def expandsq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expandsq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:
-        kw["optional_vars"] = None
-    return expands(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expands(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        kw = dict(kw)
+        kw["optional_vars"] = None  # the asname was meant for `q`, `expands` doesn't take it.
+        tree.value = expands(tree.value, syntax="expr", **kw)  # the RHS is an expression, representing a list of statements
+        return tree
 
 
 def expand1s(tree, *, syntax, expander, **kw):
-- 
2.43.0


From 317d86087f7acd08e05bbef70f12dff8dd4f8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 39/68] fix: quasiquote operators: leave globally bound macros
 alone, too

The expander that q uses to expand the quasiquote operators also saw the
global bindings, so invocations of hygienically captured macros inside a
quote were expanded at once. E.g. expand1s expanded two layers if the
first one produced such an invocation.
---
 mcpyrate/quotes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index a9d7b7e..3b1e0fe 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -945,7 +945,10 @@ def _expand_quasiquotes(tree, expander):
     # for possible as-imports. This second expander won't even see other macros,
     # thus leaving them alone.
     bindings = extract_bindings(expander.bindings, q, u, n, a, s, t, h)
-    return MacroExpander(bindings, expander.filename).visit(tree)
+    quasiquote_expander = MacroExpander(bindings, expander.filename)
+    # An expander sees also the global bindings, such as hygienically captured macros; leave those alone, too.
+    quasiquote_expander.bindings = quasiquote_expander.local_bindings
+    return quasiquote_expander.visit(tree)
 
 # TODO: maybe make the rest of this a method of `MacroExpander`, and only wrap with `QuasiquoteSearchDone` here?
 def _replace_tree_in_macro_invocation(invocation, newtree):
-- 
2.43.0


From 08d3474581ca825ba778cc4948db2314a2e9bfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:24 +0000
Subject: [PATCH 40/68] fix: capture macros hygienically also in a quote inside
 an unquote

In q[a[q[h[macro][...]]]], the inner q only knew about the quasiquote
operators, so h captured the name of the macro as a run-time value,
which raised NameError at run time.
---
 mcpyrate/quotes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 3b1e0fe..7bc973d 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -948,6 +948,8 @@ def _expand_quasiquotes(tree, expander):
     quasiquote_expander = MacroExpander(bindings, expander.filename)
     # An expander sees also the global bindings, such as hygienically captured macros; leave those alone, too.
     quasiquote_expander.bindings = quasiquote_expander.local_bindings
+    # A `q` nested inside an unquote needs the main expander to detect macros in `h`.
+    quasiquote_expander.main_expander = getattr(expander, "main_expander", expander)
     return quasiquote_expander.visit(tree)
 
 # TODO: maybe make the rest of this a method of `MacroExpander`, and only wrap with `QuasiquoteSearchDone` here?
@@ -987,7 +989,8 @@ def q(tree, *, syntax, expander, invocation, **kw):
 
         tree = delete_markers(tree, cls=QuasiquoteSearchDone)
 
-        tree = astify(tree, expander)  # Magic part of `q`. Supply `expander` for `h[macro]` detection.
+        main_expander = getattr(expander, "main_expander", expander)
+        tree = astify(tree, main_expander)  # Magic part of `q`. Supply the main expander for `h[macro]` detection.
         # `astify` should compile the unquote command markers away, and `SpliceNodes`
         # markers only spring into existence when the run-time part of `a` runs
         # (for communication with the run-time part of the surrounding `q`).
-- 
2.43.0


From 6cb8a90f6594f69186a44c5a1e6025b611866213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 41/68] fix: expand_first: accept q[h[macroname]] as an
 argument, as documented

The argument expanded into a call that looks up the captured macro at
run time, and was then rejected for not being a name.
---
 mcpyrate/metatools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index d2f75a4..1bb9d1c 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -48,7 +48,7 @@ from .astfixers import fix_locations  # noqa: F401, used in macro output.
 from .coreutils import _mcpyrate_attr
 from .debug import step_expansion  # noqa: F401, used in macro output.
 from .expander import MacroExpander, namemacro, parametricmacro
-from .quotes import astify, capture_value, q, unastify
+from .quotes import astify, capture_value, is_captured_macro, lookup_macro, q, unastify
 from .unparser import unparse_with_fallbacks
 from .utils import extract_bindings
 
@@ -517,6 +517,12 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     # which hygienic captures are macros.
     args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)
 
+    # Now a `q[h[somemacro]]` is code that, at run time, would look up the captured macro. Look it up.
+    def lookup_captured(node):
+        key = is_captured_macro(node.args[0]) if type(node) is ast.Call and node.args else False
+        return lookup_macro(key) if key else node
+    args = [lookup_captured(node) for node in args]
+
     # In the arguments, we should now have `Name` nodes only.
     invalid_args = [node for node in args if type(node) is not ast.Name]
     if invalid_args:
-- 
2.43.0


From 4c148088cb9cb5365c823780d3bcc3314cf35693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 42/68] fix: expand_first: accept bare names of identifier
 macros as arguments

Such a name was expanded as an invocation of the identifier macro, and
its result was then rejected for not being a name.
---
 mcpyrate/metatools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1bb9d1c..9c61769 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -515,7 +515,10 @@ def expand_first(tree, *, args, syntax, expander, **kw):
     # We must use the full `bindings`, not only those of the quasiquote operators
     # (see `mcpyrate.quotes._expand_quasiquotes`), so that the expander recognizes
     # which hygienic captures are macros.
-    args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)
+    #
+    # A bare name is a reference to a macro; if it is an identifier macro, it must not be expanded.
+    args_expander = MacroExpander(expander.bindings, filename=expander.filename)
+    args = [node if type(node) is ast.Name else args_expander.visit(node) for node in args]
 
     # Now a `q[h[somemacro]]` is code that, at run time, would look up the captured macro. Look it up.
     def lookup_captured(node):
-- 
2.43.0


From f2acd54154fae99b6f845da0cc9a74b06d8d4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 43/68] fix: MacroConsole: show any exception raised while
 expanding or importing macros, don't end the session

---
 mcpyrate/repl/console.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index e3c5cc7..78efda9 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -183,6 +183,9 @@ class MacroConsole(code.InteractiveConsole):
         except ImportError as err:  # during macro lookup in a successfully imported module
             self.write(f"{err.__class__.__name__}: {str(err)}\n")
             return False  # erroneous input
+        except Exception:  # any other error, e.g. raised by a macro definition module while it is being imported
+            self.showtraceback()
+            return False  # erroneous input
 
         self.runcode(code)
         self._refresh_macro_functions()
-- 
2.43.0


From c66d280343c9f8ae09381bd8cddaf46ad655611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 44/68] fix: MacroConsole: treat ?/?? as a special command only
 if the input isn't valid Python, show its syntax errors

---
 mcpyrate/repl/console.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 78efda9..8dab0a8 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -135,15 +135,20 @@ class MacroConsole(code.InteractiveConsole):
         if source == "macros?":
             self.write(format_bindings(self.expander, color=True))
             return False  # complete input
-        elif source.endswith("??"):
-            # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
-            return self._internal_execute(f"mcpyrate.repl.utils.sourcecode({source[:-2]})")
-        elif source.endswith("?"):
-            return self._internal_execute(f"mcpyrate.repl.utils.doc({source[:-1]})")
 
         try:
             code = self.compile(source, filename, symbol)
         except (OverflowError, SyntaxError, ValueError):
+            # These are commands only if not valid Python; a comment or a multiline string may end in a question mark, too.
+            try:
+                if source.endswith("??"):
+                    # Use `_internal_execute` instead of `runsource` to prevent expansion of name macros.
+                    return self._internal_execute(f"mcpyrate.repl.utils.sourcecode({source[:-2]})")
+                elif source.endswith("?"):
+                    return self._internal_execute(f"mcpyrate.repl.utils.doc({source[:-1]})")
+            except (SyntaxError, ValueError):
+                self.showsyntaxerror(filename)
+                return False  # erroneous input
             code = ""
         if code is None:  # incomplete input
             return True
-- 
2.43.0


From ff3c1c0d8f9123526226146ba4b17c619ce95dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 45/68] fix: MacroConsole: make any macro available at run
 time, also if it has no importable name

---
 mcpyrate/repl/console.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 8dab0a8..db0b2c8 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -213,8 +213,4 @@ class MacroConsole(code.InteractiveConsole):
                 continue
             if not function.__module__:    # Macros defined in the REPL have `__module__=None`.
                 continue
-            try:
-                source = f"from {function.__module__} import {function.__qualname__} as {asname}"
-                self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError):
-                pass
+            self.locals[asname] = function
-- 
2.43.0


From 2ca921495c9285fab73598d93956df7b6ff74798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 46/68] fix: MacroConsole: erroneous input establishes no macro
 bindings

---
 mcpyrate/repl/console.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index db0b2c8..a829e5f 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -167,14 +167,20 @@ class MacroConsole(code.InteractiveConsole):
             sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
+            old_bindings = dict(self.expander.bindings)
+            try:
+                self.expander.bindings.update(bindings)
+                tree = self.expander.visit(tree)
+                tree = global_postprocess(tree)
+
+                tree = ast.Interactive(tree.body)
+                code = compile(tree, filename, symbol, self.compile.compiler.flags, 1)
+            except BaseException:  # erroneous input establishes no macro bindings
+                self.expander.bindings.clear()
+                self.expander.bindings.update(old_bindings)
+                raise
             if bindings:
                 self._macro_bindings_changed = True
-                self.expander.bindings.update(bindings)
-            tree = self.expander.visit(tree)
-            tree = global_postprocess(tree)
-
-            tree = ast.Interactive(tree.body)
-            code = compile(tree, filename, symbol, self.compile.compiler.flags, 1)
         except (OverflowError, SyntaxError, ValueError, MacroExpansionError):
             self.showsyntaxerror(filename)
             return False  # erroneous input
-- 
2.43.0


From 1c5f43c06a0cb77bf1d2cc0c9e2e6cb8e188fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 47/68] fix: reloading macros in a REPL leaves mcpyrate's own
 modules alone

---
 mcpyrate/coreutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 47ed1c9..61f879b 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -174,7 +174,8 @@ def get_macros(macroimport, *, filename, reload=False, allow_asname=True, self_m
             loc = format_location(filename, macroimport, approx_sourcecode)
             raise ModuleNotFoundError(f"{loc}\nNo module named {module_absname}") from err
 
-        if reload:
+        # The macros of `mcpyrate` itself recognize each other by identity (e.g. `q` its unquotes), so keep those as they are.
+        if reload and module_absname.partition(".")[0] != __package__:
             module = importlib.reload(module)
 
     bindings = {}
-- 
2.43.0


From d4b83d661208c8d98aa0fe4d0085da58f2607aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 48/68] fix: source_to_xcode: honor _optimize when compiling an
 ordinary module

---
 mcpyrate/importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 4907b62..e298526 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -24,7 +24,7 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
     This function is monkey-patched into `importlib.machinery.SourceFileLoader`.
     """
     # `self.name` is absolute dotted module name, see `importlib.machinery.FileLoader`.
-    return compiler.compile(data, filename=path, self_module=self.name)
+    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)
 
 
 # TODO: Support PEP552 (Deterministic pycs). Need to intercept source file hashing, too.
-- 
2.43.0


From c1c7bdfd82b476f5164a33c5a46ae8db450b38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 49/68] fix: path_stats returns the real size of the source
 file

---
 mcpyrate/importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index e298526..db75360 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -209,7 +209,6 @@ def path_stats(path, _stats_cache=None):
             mtimes.append(stats["mtime"])
 
     mtime = stat_result.st_mtime_ns * 1e-9
-    # size = stat_result.st_size
     mtimes.append(mtime)
 
     # Docs say `size` is optional, and this is correct in CPython 3.6 (and in PyPy3 7.3.0, language version 3.6):
@@ -217,7 +216,8 @@ def path_stats(path, _stats_cache=None):
     # but in CPython 3.7 and later, the implementation is expecting at least a `None` there,
     # if the `size` is not used. See `get_code` in:
     #     https://github.com/python/cpython/blob/master/Lib/importlib/_bootstrap_external.py
-    # Since our minimum is Python 3.8, let's put `size` there.
-    result = {"mtime": max(mtimes), "size": None}  # and sum(sizes)? OTOH, as of Python 3.8, only 'mtime' is mandatory.
+    # The size of the source file itself is saved into the `.pyc`, so edits within the granularity
+    # of the mtime (a second) are detected, too; and `py_compile` requires the `size`.
+    result = {"mtime": max(mtimes), "size": stat_result.st_size}
     _stats_cache[path] = result
     return result
-- 
2.43.0


From 3a9a796273e782a02c8ff1b3c1250e7a3d736499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 50/68] fix: macropython -m: report an import error from inside
 __main__.py as such

---
 mcpyrate/repl/macropython.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 169def1..34a51c7 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -131,8 +131,8 @@ def import_module_as_main(name, script_mode):
         try:
             # __main__.py doesn't need to have its name set to "__main__", so import it normally.
             import_module(f"{absolute_name}.__main__")
-        except ImportError as e:
-            if "No module named" in e.msg:
+        except ModuleNotFoundError as e:
+            if e.name == f"{absolute_name}.__main__":  # not some other module it tried to import
                 has_mainpy = False
             else:
                 raise
-- 
2.43.0


From 99108646af42eeb050f2d4f0a86cc138509458d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 51/68] fix: macropython -m: run the __main__ of a subpackage
 and of a namespace package

---
 mcpyrate/repl/macropython.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 34a51c7..518212f 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -87,11 +87,11 @@ def import_module_as_main(name, script_mode):
     try_mainpy = False
     if script_mode:  # e.g. "macropython somepackage/__init__.py"
         module.__package__ = ""
-    elif path:  # e.g. "macropython -m somepackage.module"
-        module.__package__ = parent_name
-    elif spec.origin.endswith("__init__.py"):  # e.g. "macropython -m somepackage"
+    elif spec.submodule_search_locations is not None:  # e.g. "macropython -m somepackage", "macropython -m somepackage.subpackage"
         module.__package__ = absolute_name
         try_mainpy = True
+    elif path:  # e.g. "macropython -m somepackage.module"
+        module.__package__ = parent_name
 
     if spec.origin == "namespace":
         # https://docs.python.org/3/reference/import.html#__path__
-- 
2.43.0


From 02a41534ed49478161ce23978f8b89dc02a99512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 52/68] fix: macropython -m: report a dotted name whose parent
 is not a package

---
 mcpyrate/repl/macropython.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 518212f..654be30 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -67,6 +67,9 @@ def import_module_as_main(name, script_mode):
         parent_name, _, child_name = absolute_name.rpartition('.')
         parent_module = import_module(parent_name)
         path = parent_module.__spec__.submodule_search_locations
+        if path is None:
+            msg = f"No module named {absolute_name}; '{parent_name}' is not a package"
+            raise ModuleNotFoundError(msg, name=absolute_name)
 
     for finder in sys.meta_path:
         if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
-- 
2.43.0


From b86f78c9ef7e450272ac81b48a998b0953a53ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 53/68] fix: macropython: run exactly the given script file,
 never another module of that name

---
 mcpyrate/repl/macropython.py | 45 +++++++++++++-----------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 654be30..4d107f8 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -9,16 +9,15 @@
 
 import argparse
 import atexit
-import os
 import pathlib
 import sys
 from importlib import import_module
-from importlib.util import module_from_spec, resolve_name
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, resolve_name, spec_from_file_location
 
 from .. import __version__ as __mcpyrate_version__
 from .. import activate  # noqa: F401
 from ..core import MacroApplicationError
-from ..coreutils import relativize
 from ..pycachecleaner import deletepycachedirs, getpycachedirs
 
 __version__ = "3.1.0"
@@ -31,6 +30,9 @@ _macropython_module = None  # sys.modules doesn't always seem to keep it, so sta
 def import_module_as_main(name, script_mode):
     """Import a module, pretending it's __main__.
 
+    In script mode, `name` is the full path of the script. Exactly that file is run; a module
+    of the same name somewhere else (e.g. in the standard library) plays no role.
+
     We support only new-style loaders that provide `exec_module`; old-style
     loaders that provide `load_module` and `create_module` are not supported.
 
@@ -45,7 +47,7 @@ def import_module_as_main(name, script_mode):
         https://docs.python.org/3/reference/import.html#module-path
         https://docs.python.org/3/reference/import.html#special-considerations-for-main
     """
-    absolute_name = resolve_name(name, package=None)
+    absolute_name = resolve_name(name, package=None) if not script_mode else "__main__"
 
     # If already loaded, normally we should return the module from `sys.modules`,
     # but `sys.modules["__main__"]` is for now this bootstrapper, not the user __main__.
@@ -59,9 +61,11 @@ def import_module_as_main(name, script_mode):
     #     pass
 
     path = None
-    if '.' in absolute_name:
-        if script_mode:
-            raise ValueError("In script mode, please add the containing directory to `sys.path` and then top-level import the final component of the name.")
+    if script_mode:
+        # This is the standard loader also for macro-enabled modules, since we monkey-patch it. Giving it
+        # explicitly accepts also a script whose filename does not end in ".py".
+        spec = spec_from_file_location(absolute_name, name, loader=SourceFileLoader(absolute_name, name))
+    elif '.' in absolute_name:
         # Import the module's parent package normally to initialize parent packages.
         # Get the appropriate `path` for `find_spec` to find subpackages and modules.
         parent_name, _, child_name = absolute_name.rpartition('.')
@@ -71,7 +75,7 @@ def import_module_as_main(name, script_mode):
             msg = f"No module named {absolute_name}; '{parent_name}' is not a package"
             raise ModuleNotFoundError(msg, name=absolute_name)
 
-    for finder in sys.meta_path:
+    for finder in sys.meta_path if not script_mode else []:
         if not hasattr(finder, "find_spec"):  # pkg_resources.extern.VendorImporter has no find_spec
             continue
         # https://docs.python.org/3/library/importlib.html#importlib.abc.MetaPathFinder.find_spec
@@ -79,8 +83,9 @@ def import_module_as_main(name, script_mode):
         if spec is not None:
             break
     else:
-        msg = f"No module named {absolute_name}"
-        raise ModuleNotFoundError(msg, name=absolute_name)
+        if not script_mode:
+            msg = f"No module named {absolute_name}"
+            raise ModuleNotFoundError(msg, name=absolute_name)
 
     spec.name = "__main__"
     if spec.loader:
@@ -265,25 +270,7 @@ def main():
             # TODO: figure out correct insert index (spec: "after cwd, just before site packages")
             sys.path.insert(1, str(local_pypackages_dir))
 
-        # This approach finds the standard loader even for macro-enabled scripts.
-        # TODO: For mcpyrate, that could be ok, since we monkey-patch just that.
-        # TODO: But maybe better to leave the option to replace the whole loader later.
-        # spec = spec_from_file_location("__main__", str(fullpath))
-        # if not spec:
-        #     raise ImportError(f"Not a Python module: '{opts.filename}'"
-        # module = module_from_spec(spec)
-        # TODO: if we use this approach, we should first initialize parent packages.
-        # sys.modules[module.__name__] = module
-        # spec.loader.exec_module(module)
-
-        root_path, relative_path = relativize(opts.filename)
-        module_name = relative_path.replace(os.path.sep, '.')
-        if module_name.endswith(".__init__.py"):
-            module_name = module_name[:-12]
-        elif module_name.endswith(".py"):
-            module_name = module_name[:-3]
-
-        import_module_as_main(module_name, script_mode=True)
+        import_module_as_main(str(fullpath), script_mode=True)
 
 if __name__ == "__main__":
     _macropython_module = sys.modules["__macropython__"] = sys.modules["__main__"]
-- 
2.43.0


From 3d0113dd7a2376b0f7c813f90623f799945532ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 54/68] fix: astify an empty set

---
 mcpyrate/quotes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 7bc973d..998b7b9 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -729,6 +729,8 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
             return ast.Dict(keys=list(recurse(k) for k in x.keys()),
                             values=list(recurse(v) for v in x.values()))
         elif T is set:
+            if not x:  # there is no set display for an empty set; `{*()}` is the closest thing
+                return ast.Set(elts=[ast.Starred(value=ast.Tuple(elts=[]))])
             return ast.Set(elts=list(recurse(elt) for elt in x))
 
         # We must support at least the `Done` AST marker, so that things like
@@ -845,6 +847,8 @@ def unastify(tree):
         return tuple(unastify(elt) for elt in tree.elts)
     elif T is ast.Dict:
         return {unastify(k): unastify(v) for k, v in zip(tree.keys, tree.values)}
+    elif T is ast.Set and len(tree.elts) == 1 and type(tree.elts[0]) is ast.Starred:  # empty set, see `astify`
+        return set()
     elif T is ast.Set:
         return {unastify(elt) for elt in tree.elts}
 
-- 
2.43.0


From a17ef9b21fad206b008d7afa424c20f4992252c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 55/68] fix: unparse an empty set

---
 mcpyrate/unparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 044980e..ea98325 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -734,9 +734,11 @@ class Unparser:
         self.write(")")
 
     def _Set(self, t):
-        assert t.elts  # should be at least one element
         self.write("{")
-        interleave(lambda: self.write(", "), self.dispatch, t.elts)
+        if t.elts:
+            interleave(lambda: self.write(", "), self.dispatch, t.elts)
+        else:  # there is no set display for an empty set
+            self.write("*()")
         self.write("}")
 
     def _Dict(self, t):
-- 
2.43.0


From be5b57c4df101bc420a537fe22f2e5b91772473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 56/68] fix: a relative import is not a future-import

---
 mcpyrate/coreutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 61f879b..736bf6f 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -259,7 +259,7 @@ def _mcpyrate_attr(dotted_name, *, force_import=False):
 
 def isfutureimport(tree):
     """Return whether `tree` is a `from __future__ import ...`."""
-    return isinstance(tree, ast.ImportFrom) and tree.module == "__future__"
+    return isinstance(tree, ast.ImportFrom) and tree.module == "__future__" and not tree.level
 
 def split_futureimports(body):
     """Split `body` into `__future__` imports and everything else.
-- 
2.43.0


From faee0a0e8ebcb77b20fb47c23a8d457a35531408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 57/68] fix: walkers: keep the subtrees with an own state
 alive, and accept an empty state

---
 mcpyrate/walkers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 248653f..197e401 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -87,11 +87,12 @@ class BaseASTWalker:
         # never called for a statement suite, but only separately for each
         # individual statement in it. So if we should set `newstate` for a
         # suite, do it for each statement in it.
+        # Keep also a reference to the node, so that its `id` cannot be reused for another node.
         if isinstance(tree, list):
             for elt in tree:
-                self._subtree_overrides[id(elt)] = newstate
+                self._subtree_overrides[id(elt)] = (elt, newstate)
         else:
-            self._subtree_overrides[id(tree)] = newstate
+            self._subtree_overrides[id(tree)] = (tree, newstate)
 
     def generic_withstate(self, tree, **bindings):
         """Like `withstate`, but set up the new state for all children of `tree`.
@@ -118,7 +119,7 @@ class BaseASTWalker:
         newstate.update(**bindings)
 
         for node in iter_child_nodes(tree):
-            self._subtree_overrides[id(node)] = newstate
+            self._subtree_overrides[id(node)] = (node, newstate)
 
     def collect(self, value):
         """Collect a value. The values are placed in the list `self.collected`."""
@@ -137,8 +138,8 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start visiting `tree`. **Do not override this method; see `examine` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        _, newstate = self._subtree_overrides.pop(id(tree), (None, None))
+        if newstate is not None:  # an empty state is false, too
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -147,7 +148,7 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
                 return
             return self.examine(tree)
         finally:
-            if newstate:
+            if newstate is not None:  # an empty state is false, too
                 self._stack.pop()
 
     @abstractmethod
@@ -178,8 +179,8 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start transforming `tree`. **Do not override this method; see `transform` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        _, newstate = self._subtree_overrides.pop(id(tree), (None, None))
+        if newstate is not None:  # an empty state is false, too
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -190,7 +191,7 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
                 return tree
             return self.transform(tree)
         finally:
-            if newstate:
+            if newstate is not None:  # an empty state is false, too
                 self._stack.pop()
 
     @abstractmethod
-- 
2.43.0


From 092151a68d3711d5b35da6205337c40eed8f83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 58/68] fix: importer: path_stats must not require a module in
 a dialect with its own surface syntax to be Python

---
 mcpyrate/importer.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index db75360..1c3836d 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -94,6 +94,23 @@ def _detect_stdlib_sourcefile_paths():
 _stdlib_sourcefile_paths = _detect_stdlib_sourcefile_paths()
 
 
+def _scan_unparseable(lines):
+    """Collect the macro-imports and dialect-imports from the lines of a source file that is not (yet) Python.
+
+    We see only imports that are on a single line, starting at the first column,
+    which is what the dialect expander requires of a dialect-import.
+    """
+    imports = []
+    for line in lines:
+        if not line.startswith("from"):
+            continue
+        try:
+            imports.extend(ast.parse(line).body)
+        except SyntaxError:  # not an import
+            pass
+    return ast.Module(body=imports, type_ignores=[])
+
+
 def path_stats(path, _stats_cache=None):
     """[mcpyrate] Compute a `.py` source file's mtime, accounting for macro-imports.
 
@@ -154,7 +171,14 @@ def path_stats(path, _stats_cache=None):
         # TODO: Or just document it, that the dialect definition module *must* macro-import those macros
         # TODO: even if it just injects them in the template?
         with tokenize.open(path) as sourcefile:
-            tree = ast.parse(sourcefile.read(), filename=path)
+            try:
+                tree = ast.parse(sourcefile.read(), filename=path)
+            except SyntaxError:
+                # A dialect may bring its own surface syntax, so that only its source transformer makes this Python.
+                sourcefile.seek(0)
+                tree = _scan_unparseable(sourcefile)
+                if not any(ismacroimport(stmt, magicname="dialects") for stmt in tree.body):
+                    raise
 
         macroimports = []
         dialectimports = []
-- 
2.43.0


From 098cc6c64caf750019c3fbd8e969aba403675ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 59/68] fix: IPython extension: unloading detaches it from the
 shell

---
 mcpyrate/repl/iconsole.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index b744c36..cd446ba 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -68,6 +68,8 @@ def load_ipython_extension(ipython):
 # TODO: unregister magics at unload time?
 def unload_ipython_extension(ipython):
     global _instance
+    if _instance:
+        _instance.uninstall()
     _instance = None
 
 
@@ -180,10 +182,11 @@ class IMcpyrateExtension:
         ipy = self.shell.get_ipython()
         ipy.events.register("post_run_cell", self._refresh_macro_functions)
 
-    def __del__(self):
+    def uninstall(self):
+        """Detach this extension from the shell. (The shell refers to us, so a `__del__` would never trigger.)"""
         ipy = self.shell.get_ipython()
         ipy.events.unregister("post_run_cell", self._refresh_macro_functions)
-        del self.shell.user_ns["__macro_expander__"]
+        self.shell.user_ns.pop("__macro_expander__", None)
         self.shell.ast_transformers.remove(self.macro_transformer)
         self.shell.input_transformers_post.remove(self._get_source_code)
 
-- 
2.43.0


From 2cdb1c3f96bfacf97d3a35c19ac0d4988164f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 60/68] fix: IPython extension: a rejected cell establishes no
 macro bindings

---
 mcpyrate/repl/iconsole.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index cd446ba..b4bbe4c 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -128,6 +128,7 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
         self.expander = MacroExpander(bindings={}, filename=_placeholder)
 
     def visit(self, tree):
+        old_bindings = dict(self.expander.bindings)
         try:
             sys.modules[_magic_module_name].__dict__.clear()
             sys.modules[_magic_module_name].__dict__.update(self._ipyextension.shell.user_ns)  # for self-macro-imports
@@ -139,14 +140,17 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             # macro-imports (this will import the modules)
             bindings = find_macros(tree, filename=self.expander.filename,
                                    reload=True, self_module=_magic_module_name)
-            if bindings:
-                self._ipyextension._macro_bindings_changed = True
-                self.expander.bindings.update(bindings)
+            self.expander.bindings.update(bindings)
             new_tree = self.expander.visit(tree)
             new_tree = global_postprocess(new_tree)
+            if bindings:
+                self._ipyextension._macro_bindings_changed = True
             self._ipyextension.src = _placeholder
             return new_tree
         except Exception as err:
+            # erroneous input establishes no macro bindings
+            self.expander.bindings.clear()
+            self.expander.bindings.update(old_bindings)
             # see IPython.core.interactiveshell.InteractiveShell.transform_ast()
             raise InputRejected(*err.args)
 
-- 
2.43.0


From 05afa601419e7cdbaef6de4a5b36ed2eff655b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 61/68] fix: IPython extension: %%dump_ast of an expanded
 expression

---
 mcpyrate/repl/iconsole.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index b4bbe4c..546b631 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -138,8 +138,11 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             # in `user_ns` even if the user explicitly doesn't.)
             sys.modules[_magic_module_name].__dict__.update(self._ipyextension.magic_module_metadata)
             # macro-imports (this will import the modules)
-            bindings = find_macros(tree, filename=self.expander.filename,
-                                   reload=True, self_module=_magic_module_name)
+            if isinstance(tree, ast.Expression):  # from `%%dump_ast`; has no statements
+                bindings = {}
+            else:
+                bindings = find_macros(tree, filename=self.expander.filename,
+                                       reload=True, self_module=_magic_module_name)
             self.expander.bindings.update(bindings)
             new_tree = self.expander.visit(tree)
             new_tree = global_postprocess(new_tree)
-- 
2.43.0


From 2db809553aa2f27dc63c79c433112582b7062abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 62/68] fix: IPython extension: make any macro available at run
 time, also if it has no importable name

---
 mcpyrate/repl/iconsole.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index 546b631..dfc42ee 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -23,7 +23,6 @@ line magic.
 
 import ast
 import copy
-from functools import partial
 import sys
 
 from IPython.core import magic_arguments
@@ -216,10 +215,6 @@ class IMcpyrateExtension:
         if not self._macro_bindings_changed:
             return
         self._macro_bindings_changed = False
-        internal_execute = partial(self.shell.run_cell,
-                                   store_history=False,
-                                   silent=True)
-
         for asname, function in self.macro_transformer.expander.bindings.items():
             # Catch broken bindings due to erroneous imports in user code
             # (e.g. accidentally to a module object instead of to a function object)
@@ -227,6 +222,4 @@ class IMcpyrateExtension:
                 continue
             if not function.__module__:  # Macros defined in the REPL have `__module__=None`.
                 continue
-            commands = ["%%ignore_importerror",
-                        f"from {function.__module__} import {function.__qualname__} as {asname}"]
-            internal_execute("\n".join(commands))
+            self.shell.user_ns[asname] = function
-- 
2.43.0


From 8a62b304743f5f2af6520100ac2785052ff533cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 63/68] fix: an interrupted expansion in IPython establishes no
 macro bindings

---
 mcpyrate/repl/iconsole.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index dfc42ee..5b923d0 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -155,6 +155,10 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             self.expander.bindings.update(old_bindings)
             # see IPython.core.interactiveshell.InteractiveShell.transform_ast()
             raise InputRejected(*err.args)
+        except BaseException:  # e.g. `KeyboardInterrupt`
+            self.expander.bindings.clear()
+            self.expander.bindings.update(old_bindings)
+            raise
 
 
 class IMcpyrateExtension:
-- 
2.43.0


From 2391ec9876688d5369cd6728fca52f54292069da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 64/68] fix: macro-imports in the REPL leave variables the user
 assigned alone

---
 mcpyrate/repl/console.py  | 20 +++++++-------------
 mcpyrate/repl/iconsole.py | 22 +++++++---------------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index a829e5f..9d525e2 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -40,8 +40,6 @@ class MacroConsole(code.InteractiveConsole):
     def __init__(self, locals=None, filename="<interactive input>"):
         """Parameters like in `code.InteractiveConsole`."""
         self.expander = MacroExpander(bindings={}, filename=filename)
-        self._macro_bindings_changed = False
-
         if locals is None:
             locals = {}
         # Lucky that both meta-levels speak the same language, eh?
@@ -179,8 +177,6 @@ class MacroConsole(code.InteractiveConsole):
                 self.expander.bindings.clear()
                 self.expander.bindings.update(old_bindings)
                 raise
-            if bindings:
-                self._macro_bindings_changed = True
         except (OverflowError, SyntaxError, ValueError, MacroExpansionError):
             self.showsyntaxerror(filename)
             return False  # erroneous input
@@ -198,21 +194,19 @@ class MacroConsole(code.InteractiveConsole):
             self.showtraceback()
             return False  # erroneous input
 
+        self._refresh_macro_functions(bindings)
         self.runcode(code)
-        self._refresh_macro_functions()
         return False  # Successfully compiled. `runcode` takes care of any runtime failures.
 
-    def _refresh_macro_functions(self):
+    def _refresh_macro_functions(self, bindings):
         """Refresh macro function imports.
 
-        Called after successfully compiling and running an input, so that
-        `some_macro.__doc__` points to the right docstring.
+        Called after successfully compiling an input, with the macro `bindings`
+        established by that input, so that `some_macro.__doc__` points to the
+        right docstring. Whatever the user assigns to these names, in that input
+        or later, is left alone.
         """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
-
-        for asname, function in self.expander.bindings.items():
+        for asname, function in bindings.items():
             # Catch broken bindings due to erroneous imports in user code
             # (e.g. accidentally to a module object instead of to a function object)
             if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index 5b923d0..0b7080e 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -145,8 +145,7 @@ class InteractiveMacroTransformer(ast.NodeTransformer):
             self.expander.bindings.update(bindings)
             new_tree = self.expander.visit(tree)
             new_tree = global_postprocess(new_tree)
-            if bindings:
-                self._ipyextension._macro_bindings_changed = True
+            self._ipyextension._refresh_macro_functions(bindings)
             self._ipyextension.src = _placeholder
             return new_tree
         except Exception as err:
@@ -165,7 +164,6 @@ class IMcpyrateExtension:
     """IPython extension. Import, define and use `mcpyrate` macros in the IPython REPL."""
 
     def __init__(self, shell):
-        self._macro_bindings_changed = False
         self.src = _placeholder
         self.shell = shell
 
@@ -189,13 +187,8 @@ class IMcpyrateExtension:
         # and then modify `InteractiveMacroTransformer` to run the dialect system's
         # AST transformer before it runs the macro expander. Look at `mcpyrate.compiler.compile`.
 
-        ipy = self.shell.get_ipython()
-        ipy.events.register("post_run_cell", self._refresh_macro_functions)
-
     def uninstall(self):
         """Detach this extension from the shell. (The shell refers to us, so a `__del__` would never trigger.)"""
-        ipy = self.shell.get_ipython()
-        ipy.events.unregister("post_run_cell", self._refresh_macro_functions)
         self.shell.user_ns.pop("__macro_expander__", None)
         self.shell.ast_transformers.remove(self.macro_transformer)
         self.shell.input_transformers_post.remove(self._get_source_code)
@@ -209,17 +202,16 @@ class IMcpyrateExtension:
         self.src = lines
         return lines
 
-    def _refresh_macro_functions(self, info):
+    def _refresh_macro_functions(self, bindings):
         """Refresh macro function imports.
 
-        Called after running a cell, so that IPython help "some_macro?" works
+        Called after successfully expanding a cell, with the macro `bindings`
+        established by that cell, so that IPython help "some_macro?" works
         for the currently available macros, allowing the user to easily view
-        macro docstrings.
+        macro docstrings. Whatever the user assigns to these names, in that
+        cell or later, is left alone.
         """
-        if not self._macro_bindings_changed:
-            return
-        self._macro_bindings_changed = False
-        for asname, function in self.macro_transformer.expander.bindings.items():
+        for asname, function in bindings.items():
             # Catch broken bindings due to erroneous imports in user code
             # (e.g. accidentally to a module object instead of to a function object)
             if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):
-- 
2.43.0


From 112db0804ebb0ec3d1064e510e1de1143c4ef344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:19 +0000
Subject: [PATCH 65/68] fix: modules installed into site-packages are not part
 of the standard library

---
 mcpyrate/importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 1c3836d..ced5d6d 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -87,6 +87,8 @@ def _detect_stdlib_sourcefile_paths():
     stdlib_dir = os.path.dirname(os.__file__)
     paths = set()
     for root, dirs, files in os.walk(stdlib_dir):
+        if root == stdlib_dir:  # usually, installed third-party packages live there, too
+            dirs[:] = [dirname for dirname in dirs if dirname not in ("site-packages", "dist-packages")]
         for filename in files:
             if filename[-3:] == ".py":
                 paths.add(os.path.join(root, filename))
-- 
2.43.0


From a7fac9e76a181e6e18c741d73d473978eba434d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 66/68] fix: allow macro modules that have no source file or no
 module spec

---
 mcpyrate/importer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index ced5d6d..cb4d427 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -4,7 +4,7 @@
 __all__ = ["source_to_xcode", "path_xstats", "path_stats"]
 
 import ast
-from importlib.machinery import SourceFileLoader
+from importlib.machinery import SOURCE_SUFFIXES, SourceFileLoader
 import importlib.util
 import os
 import pickle
@@ -228,11 +228,18 @@ def path_stats(path, _stats_cache=None):
             raise SyntaxError(f"{loc}\nmissing module name in macro-import")
         module_absname = importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)
 
-        spec = importlib.util.find_spec(module_absname)
-        if spec:  # self-macro-imports have no `spec`, and that's fine.
+        try:
+            spec = importlib.util.find_spec(module_absname)
+        except ValueError:  # a module without a `spec`, such as one created at run time
+            spec = None
+        # Self-macro-imports have no `spec`, and built-in modules have no file, and that's fine.
+        if spec and spec.origin and os.path.isfile(spec.origin):
             origin = spec.origin
-            stats = path_stats(origin, _stats_cache)
-            mtimes.append(stats["mtime"])
+            if origin.endswith(tuple(SOURCE_SUFFIXES)):
+                stats = path_stats(origin, _stats_cache)
+                mtimes.append(stats["mtime"])
+            else:  # bytecode without source, or an extension module; there are no macro-imports to scan.
+                mtimes.append(os.stat(origin).st_mtime_ns * 1e-9)
 
     mtime = stat_result.st_mtime_ns * 1e-9
     mtimes.append(mtime)
-- 
2.43.0


From 665f6427dbf4009d75b500403c7af6c95b7764db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:36 +0000
Subject: [PATCH 67/68] fix: extract_bindings with macros that are unhashable
 callables

---
 mcpyrate/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index 9fe84af..bc50106 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -172,7 +172,7 @@ def extract_bindings(bindings, *functions, global_only=False):
         bindings = extract_bindings(expander.bindings, mymacro1, mymacro2, mymacro3)
         tree = MacroExpander(bindings, expander.filename).visit(tree)
     """
-    functions = set(functions)
+    # A macro can be any callable, also an unhashable one.
     return {name: function for name, function in bindings.items() if function in functions}
 
 
-- 
2.43.0


From 10502ddfcacd45181e644171d68271ac23a1ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 68/68] fix: macro-imports in the REPL from modules created at
 run time

---
 mcpyrate/coreutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 736bf6f..8c5c199 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -175,7 +175,8 @@ def get_macros(macroimport, *, filename, reload=False, allow_asname=True, self_m
             raise ModuleNotFoundError(f"{loc}\nNo module named {module_absname}") from err
 
         # The macros of `mcpyrate` itself recognize each other by identity (e.g. `q` its unquotes), so keep those as they are.
-        if reload and module_absname.partition(".")[0] != __package__:
+        # A module without a spec, such as one created at run time, has nothing to reload it from.
+        if reload and module_absname.partition(".")[0] != __package__ and getattr(module, "__spec__", None):
             module = importlib.reload(module)
 
     bindings = {}
-- 
2.43.0

