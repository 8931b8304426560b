From 634c908c809049fadee8e7a26bdfc04bbb1f9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 01/13] fix: SubsFunc returns the right value when the whole
 expression is an arg

SubsFunc(expr, args) always returned the last item of its stack.  When expr
itself is one of several args there are no operations and the last item is
the value of the last arg, so x.xreplace({x: 1, y: 2}) gave 2 and a rule like
diff[f(a, b), a] = a differentiated f(x, 2) to 2.
---
 src/protosym/core/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..32487a5 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -454,6 +454,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    result: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -506,6 +507,8 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        # The last item of the stack unless expr is itself one of the args.
+        obj.result = indices[expr]
 
         return obj
 
@@ -522,7 +525,7 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        return stack[self.result]
 
 
 try:
-- 
2.43.0


From 9cb51ca3ec13e323971df25197aa2ebec2ea5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 02/13] fix: refuse to make a Tree with no children

Tree() made an object that is neither atomic (it has no value) nor compound.
Besides being unusable it is what copy and pickle call, which then overwrote
the attributes of that one shared object, so copy.copy(f(x)) gave a Tree that
is not f(x) and that changed when any other Tree was copied.
---
 src/protosym/core/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 32487a5..2708286 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -117,6 +117,9 @@ class Tree:
 
     def __new__(cls, *children: Tree) -> Tree:
         """Return a prevously created Tree or a new one."""
+        if not children:
+            raise TypeError("A Tree should have children or be made by Tree.atom.")
+
         previous = _all_trees.get(children, None)
         if previous is not None:
             return previous
-- 
2.43.0


From 19fed2a4d3c1d59586751e9ba5299a6f59269ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 03/13] fix: convert empty tuples and calls without arguments
 from SymPy

They have no args and so were taken for unknown atoms: Matrix.from_sympy of
a zero matrix and Expr.from_sympy(Function('f')()) raised NotImplementedError
although converting the other way works.
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..edfd3d6 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,7 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
+    elif expr.args or isinstance(expr, (sympy.Tuple, AppliedUndef)):
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From 329b715e92615edf5ffd95ba9a94560b64ac0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 04/13] fix: forward evaluation uses every value that is given

eval_forward (what Evaluator uses by default) ignored the value given for a
compound subexpression, which eval_recursive uses, so eval_f64(sin(1),
{sin(1): 5.0}) silently gave 0.84, and it ignored a value of None given for
an atom.
---
 src/protosym/core/evaluate.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..7f51e7a 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Callable, Generic, TypeVar, cast
 
 from protosym.core.exceptions import NoEvaluationRuleError
-from protosym.core.tree import Tree, forward_graph
+from protosym.core.tree import Tree, topological_sort
 
 if _TYPE_CHECKING:
     from protosym.core.atom import AnyValue as _AnyValue
@@ -166,27 +166,21 @@ class Evaluator(Generic[_T]):
 
     def eval_forward(self, expr: Tree, values: dict[Tree, _T]) -> _T:
         """Evaluate the expression using forward evaluation."""
-        # Convert expr to the forward graph representation
-        graph = forward_graph(expr)
-        stack = []
-
-        # Convert all atoms to _T
-        for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+        # Start with the values given explicitly. Those subexpressions do not
+        # need to be evaluated.
+        results = dict(values)
+
+        # All children of subexpr come before it in the topological sort.
+        for subexpr in topological_sort(expr, exclude=set(values)):
+            children = subexpr.children
+            if not children:
+                # Convert an Atom to _T
+                results[subexpr] = self.eval_atom(subexpr)
             else:
-                value = self.eval_atom(atom)
-            stack.append(value)
+                argvals = [results[c] for c in children[1:]]
+                results[subexpr] = self.eval_operation(children[0], argvals)
 
-        # Run forward evaluation through the operations
-        for head, indices in graph.operations:
-            argvals = [stack[i] for i in indices]
-            stack.append(self.eval_operation(head, argvals))
-
-        # Now stack is the values of the topological sort of expr and stack[-1]
-        # is the value of expr.
-        return stack[-1]
+        return results[expr]
 
     def __call__(self, expr: Tree, values: dict[Tree, _T] | None = None) -> _T:
         """Short-hand for evaluate."""
-- 
2.43.0


From 57c891403cd3e6edce192744e373e852da3585d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 05/13] fix: bracket the base of a power when it is a power or
 negative

(x**y)**2 and x**(y**2) were both displayed as x**y**2, and Integer(-1)**2 as
-1**2. The LaTeX form x^{y}^{2} is not even valid.
---
 src/protosym/simplecas/functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/functions.py b/src/protosym/simplecas/functions.py
index 0cf083f..b52a449 100644
--- a/src/protosym/simplecas/functions.py
+++ b/src/protosym/simplecas/functions.py
@@ -57,13 +57,27 @@ eval_f64[cos(a)] = f64_cos(a)
 #                                                                           #
 # ------------------------------------------------------------------------- #
 
+
+class _PowStr(str):
+    """String form of a power."""
+
+    __slots__ = ()
+
+
+def _pow_base(base: str) -> str:
+    """Bracket the base of a power if it is a power or a negative number."""
+    if isinstance(base, _PowStr) or base.startswith("-"):
+        return f"({base})"
+    return base
+
+
 repr_atom = AtomFunc[str](str)
 repr_call = HeadOp[str](lambda head, args: f'{head}({", ".join(args)})')
 str_from_int = PyFunc1[int, str](str)
 str_from_str = PyFunc1[str, str](str)
 repr_add = PyOpN[str](lambda args: f'({" + ".join(args)})')
 repr_mul = PyOpN[str](lambda args: f'({"*".join(args)})')
-repr_pow = PyOp2[str](lambda b, e: f"{b}**{e}")
+repr_pow = PyOp2[str](lambda b, e: _PowStr(f"{_pow_base(b)}**{e}"))
 
 
 eval_repr[HeadRule(a, b)] = repr_call(a, b)
@@ -83,7 +97,7 @@ eval_repr[a**b] = repr_pow(a, b)
 
 latex_add = PyOpN(lambda args: f'({" + ".join(args)})')
 latex_mul = PyOpN(lambda args: "(" + r" \times ".join(args) + ")")
-latex_pow = PyOp2(lambda b, e: f"{b}^{{{e}}}")
+latex_pow = PyOp2(lambda b, e: _PowStr(f"{_pow_base(b)}^{{{e}}}"))
 latex_sin = PyOp1(lambda a: rf"\sin({a})")
 latex_cos = PyOp1(lambda a: rf"\cos({a})")
 
-- 
2.43.0


From 301d6725d8d05f8f6ec3c3a07a5dff5c67274a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 06/13] fix: lambdify with symbols that have unusual names

The names of the arguments were put into the LLVM code unchecked, where they
could not be parsed (quotes), were read as escapes (backslash) or clashed with
the output array (_out) or with an instruction (.0).
---
 src/protosym/simplecas/lambdification.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index ea74f71..e412ddf 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -32,13 +32,24 @@ declare double    @llvm.cos.f64(double %Val)
 """
 
 
+def _arg_names(symargs: list[Tree]) -> dict[Tree, str]:
+    """LLVM names for the arguments: their own names if those can be used."""
+    names = {}
+    for n, sym in enumerate(symargs):
+        name = str(sym)
+        if not name.isidentifier() or name == "_out":
+            name = f".arg{n}"
+        names[sym] = f'%"{name}"'
+    return names
+
+
 def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
     """Code for LLVM IR function computing ``expression`` from ``symargs``."""
     expression = bin_expand(expression)
 
     graph = forward_graph(expression)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _arg_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
@@ -154,7 +165,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _arg_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0


From 307872aebb43a82e0683bb28ed94b36b0b515595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 07/13] fix: Matrix.binop with operations other than Add

Where only one of the matrices has a nonzero entry binop gave that entry
whatever the operation is, e.g. x instead of x*0 for Mul.
---
 src/protosym/simplecas/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protosym/simplecas/matrix.py b/src/protosym/simplecas/matrix.py
index 9dc7c5c..f07cfb3 100644
--- a/src/protosym/simplecas/matrix.py
+++ b/src/protosym/simplecas/matrix.py
@@ -112,6 +112,10 @@ class Matrix:
         """Elementwise binary operaton on two matrices."""
         if self.shape != other.shape:
             raise TypeError("Shape mismatch.")
+        if func != Add:
+            # Only for Add can a zero operand be left out.
+            rows = zip(self.tolist(), other.tolist())
+            return Matrix([[func(*pair) for pair in zip(*row)] for row in rows])
         new_elements = self.elements.copy()
         new_entrymap = self.entrymap.copy()
         for ij, n_other in other.entrymap.items():
-- 
2.43.0


From b3ae1407ad89a6d968d47dec43960f0c35c5464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 08/13] fix: two threads could create the same expression twice

WeakValueDictionary.setdefault is written in Python and is not atomic: two
threads can both find the key missing and then each keeps its own object, so
equal Atoms, Trees or Syms compare unequal. Hold a lock while adding.
---
 src/protosym/core/atom.py |  8 +++++++-
 src/protosym/core/sym.py  |  7 ++++++-
 src/protosym/core/tree.py | 10 ++++++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..e12cf5d 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -5,6 +5,7 @@ This module defines the :class:`AtomType` and :class:`Atom` types.
 
 from __future__ import annotations
 
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, cast
 from typing import Generic as _Generic
@@ -29,6 +30,10 @@ _T = _TypeVar("_T", bound=AnyValue, covariant=True)
 #
 _all_atoms: _WeakDict[Any, Any] = _WeakDict()
 
+# Held when adding to the store because WeakValueDictionary.setdefault is not
+# atomic. Reentrant because adding can run finalizers that create Atoms.
+_all_atoms_lock = _RLock()
+
 
 class AtomType(_Generic[_T]):
     """Identifier to distinguish different kinds of atoms.
@@ -169,7 +174,8 @@ class Atom(_Generic[_T]):
         # here then we will make sure to retrieve the object created there or
         # otherwise force the other thread to accept the value we have created
         # here.
-        obj = _all_atoms.setdefault(key, obj)
+        with _all_atoms_lock:
+            obj = _all_atoms.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..cdc1f3d 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -10,6 +10,7 @@ by user-facing classes that derive from :class:`Sym`.
 
 from __future__ import annotations
 
+from threading import RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, Callable, Generic, Sequence, TypeVar, overload
 
@@ -133,6 +134,9 @@ class Sym:
 
     _all_expressions: _WeakDict[Any, Any] = _WeakDict()
 
+    # Held when adding to the store (see protosym.core.atom).
+    _all_expressions_lock = RLock()
+
     rep: Tree
 
     def __new__(cls, tree_expr: Tree) -> Self:
@@ -153,7 +157,8 @@ class Sym:
         obj = super().__new__(cls)
         obj.rep = tree_expr
 
-        obj = cls._all_expressions.setdefault(key, obj)
+        with cls._all_expressions_lock:
+            obj = cls._all_expressions.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 2708286..3750cbb 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -6,6 +6,7 @@ This module defines classes for representing expressions in top-down tree form.
 from __future__ import annotations
 
 from dataclasses import dataclass
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from weakref import WeakValueDictionary as _WeakDict
 
@@ -27,6 +28,9 @@ __all__ = [
 
 _all_trees: _WeakDict[AnyAtom | tuple[Tree, ...], Tree] = _WeakDict()
 
+# Held when adding to the store (see protosym.core.atom).
+_all_trees_lock = _RLock()
+
 
 class Tree:
     """Base class for tree expressions.
@@ -130,7 +134,8 @@ class Tree:
         obj = object.__new__(cls)
         obj.children = children
 
-        obj = _all_trees.setdefault(children, obj)
+        with _all_trees_lock:
+            obj = _all_trees.setdefault(children, obj)
 
         return obj
 
@@ -148,7 +153,8 @@ class Tree:
         obj.value = value
         obj.children = ()
 
-        obj = _all_trees.setdefault(value, obj)
+        with _all_trees_lock:
+            obj = _all_trees.setdefault(value, obj)
 
         return obj
 
-- 
2.43.0


From 32f6d01ba0b9d9d31bd5372a3cb90b12a7094aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 09/13] fix: refuse to convert calls of other things than
 functions to SymPy

The head of such a call was turned into the name of a function: f(x)(y)
became a call of a function named "f(x)".
---
 src/protosym/simplecas/sympy_conversions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index edfd3d6..858df23 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -6,12 +6,13 @@ not needed.
 
 from __future__ import annotations
 
-from typing import Any
+from typing import Any, Sequence
 
 import sympy
 from sympy.core.function import AppliedUndef
 
 from protosym.core.sym import HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star
+from protosym.core.tree import Tree
 from protosym.simplecas import (
     Add,
     Expr,
@@ -30,6 +31,14 @@ from protosym.simplecas import (
 
 eval_to_sympy = Expr.new_evaluator("to_sympy", sympy.Basic)
 
+
+def _undef_call(head: Tree, args: Sequence[sympy.Basic]) -> Any:
+    """Call an undefined function (the head should be a Function atom)."""
+    if head.children or head.value.atom_type != Function.atom_type:
+        raise NotImplementedError(f"Cannot convert a call of {head}")
+    return sympy.Function(head.value.value)(*args)
+
+
 sympy_integer = PyFunc1[int, sympy.Basic](sympy.Integer)
 sympy_symbol = PyFunc1[str, sympy.Basic](sympy.Symbol)
 sympy_function = PyFunc1[str, sympy.Basic](sympy.Function)  # pyright: ignore
@@ -39,9 +48,7 @@ sympy_pow = PyOp2[sympy.Basic](sympy.Pow)
 sympy_sin = PyOp1[sympy.Basic](sympy.sin)  # pyright: ignore
 sympy_cos = PyOp1[sympy.Basic](sympy.cos)  # pyright: ignore
 sympy_tuple = PyOpN[sympy.Basic](lambda a: sympy.Tuple(*a))  # pyright: ignore
-sympy_undef_call = HeadOp[sympy.Basic](
-    lambda a, b: sympy.Function(str(a))(*b)  # pyright: ignore
-)
+sympy_undef_call = HeadOp[sympy.Basic](_undef_call)
 
 eval_to_sympy[Integer[a]] = sympy_integer(a)
 eval_to_sympy[Symbol[a]] = sympy_symbol(a)
-- 
2.43.0


From 346f7ae6dbe82f7ab3e4a335ee26fde13b4c3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 10/13] fix: refuse SymPy functions that have the name of a
 built-in operation

An undefined function named Add, Mul, pow, sin, cos or List became that
operation.
---
 src/protosym/simplecas/sympy_conversions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index 858df23..f76c9df 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -124,6 +124,9 @@ def _from_sympy_cache_args(expr: Any, sympy: Any, cache: dict[Any, Expr]) -> Exp
     elif isinstance(expr, sympy.Tuple):
         return List(*args)
     elif isinstance(expr, AppliedUndef):
-        return Function(expr.name)(*args)  # pyright: ignore
+        func = Function(expr.name)  # pyright: ignore
+        if func in (Add, Mul, Pow, sin, cos, List):
+            raise NotImplementedError(f"Undefined function named {func}")
+        return func(*args)
     else:
         raise NotImplementedError("Cannot convert " + type(expr).__name__)
-- 
2.43.0


From 0d1b8414eea1a8b4e36eae2cd0f6702df9413e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 11/13] fix: refuse pow with three operands when converting to
 SymPy

The third operand was taken as SymPy's evaluate flag and dropped.
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index f76c9df..56d9e69 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -44,7 +44,7 @@ sympy_symbol = PyFunc1[str, sympy.Basic](sympy.Symbol)
 sympy_function = PyFunc1[str, sympy.Basic](sympy.Function)  # pyright: ignore
 sympy_add = PyOpN[sympy.Basic](lambda a: sympy.Add(*a))
 sympy_mul = PyOpN[sympy.Basic](lambda a: sympy.Mul(*a))
-sympy_pow = PyOp2[sympy.Basic](sympy.Pow)
+sympy_pow = PyOp2[sympy.Basic](lambda a, b: sympy.Pow(a, b))
 sympy_sin = PyOp1[sympy.Basic](sympy.sin)  # pyright: ignore
 sympy_cos = PyOp1[sympy.Basic](sympy.cos)  # pyright: ignore
 sympy_tuple = PyOpN[sympy.Basic](lambda a: sympy.Tuple(*a))  # pyright: ignore
-- 
2.43.0


From 5afd9f103b8b0d5831add473a882062e6b3827ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 12/13] fix: refuse to compile calls with the wrong number of
 arguments

lambdify compiled pow(x, y, z) as x**y and sin(x, y) as sin(x).
---
 src/protosym/simplecas/lambdification.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index e412ddf..1a8e7c0 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -74,12 +74,12 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
@@ -191,12 +191,12 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
-- 
2.43.0


From 756484fd3ed93efabbe483653e01991bb34837db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 13/13] fix: keep objects unique when a finalizer or signal
 handler runs while one is added

---
 src/protosym/core/atom.py | 24 +++++++++++++++++++++++-
 src/protosym/core/sym.py  |  4 ++--
 src/protosym/core/tree.py |  4 ++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index e12cf5d..f46097c 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -5,12 +5,14 @@ This module defines the :class:`AtomType` and :class:`Atom` types.
 
 from __future__ import annotations
 
+from _weakref import _remove_dead_weakref  # type: ignore
 from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, cast
 from typing import Generic as _Generic
 from typing import Hashable as _Hashable
 from typing import TypeVar as _TypeVar
+from weakref import KeyedRef as _KeyedRef
 from weakref import WeakValueDictionary as _WeakDict
 
 __all__ = [
@@ -22,13 +24,33 @@ __all__ = [
 AnyValue = _Hashable
 _T = _TypeVar("_T", bound=AnyValue, covariant=True)
 
+
+class _WeakStore(_WeakDict):  # type: ignore
+    """WeakValueDictionary that can be used while it is being used.
+
+    The ``setdefault`` method of ``WeakValueDictionary`` looks for the key and
+    then adds it. A finalizer or a signal handler that runs in between and adds
+    the same key would have its object replaced although it is still in use.
+    """
+
+    def setdefault(self, key: Any, default: Any = None) -> Any:
+        """Return the live object for ``key`` after adding one if needed."""
+        ref = _KeyedRef(default, self._remove, key)  # type: ignore
+        while True:
+            # Only this step adds anything.
+            obj = self.data.setdefault(key, ref)()  # type: ignore
+            if obj is not None:
+                return obj
+            _remove_dead_weakref(self.data, key)  # type: ignore
+
+
 #
 # The global store of Atoms. This maps from AtomTypes and values to Atoms.
 # Whenever an Atom is constructed this store is used to ensure that there is
 # only ever a unique object representing a given Atom by returning a
 # preexisting object if there is one.
 #
-_all_atoms: _WeakDict[Any, Any] = _WeakDict()
+_all_atoms: _WeakDict[Any, Any] = _WeakStore()
 
 # Held when adding to the store because WeakValueDictionary.setdefault is not
 # atomic. Reentrant because adding can run finalizers that create Atoms.
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index cdc1f3d..2173b06 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -19,7 +19,7 @@ if _TYPE_CHECKING:
 
 from weakref import WeakValueDictionary as _WeakDict
 
-from protosym.core.atom import AtomType
+from protosym.core.atom import AtomType, _WeakStore
 from protosym.core.differentiate import DiffProperties, diff_forward
 from protosym.core.evaluate import Evaluator
 from protosym.core.exceptions import BadRuleError
@@ -132,7 +132,7 @@ class Sym:
     protosym.simplecas::Expr - A subclass of :class:`Sym`.
     """
 
-    _all_expressions: _WeakDict[Any, Any] = _WeakDict()
+    _all_expressions: _WeakDict[Any, Any] = _WeakStore()
 
     # Held when adding to the store (see protosym.core.atom).
     _all_expressions_lock = RLock()
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 3750cbb..4105822 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -10,7 +10,7 @@ from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from weakref import WeakValueDictionary as _WeakDict
 
-from protosym.core.atom import Atom, AtomType
+from protosym.core.atom import Atom, AtomType, _WeakStore
 
 if _TYPE_CHECKING:
     from protosym.core.atom import AnyAtom
@@ -26,7 +26,7 @@ __all__ = [
 ]
 
 
-_all_trees: _WeakDict[AnyAtom | tuple[Tree, ...], Tree] = _WeakDict()
+_all_trees: _WeakDict[AnyAtom | tuple[Tree, ...], Tree] = _WeakStore()
 
 # Held when adding to the store (see protosym.core.atom).
 _all_trees_lock = _RLock()
-- 
2.43.0

