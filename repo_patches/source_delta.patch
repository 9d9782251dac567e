From 38026dc7a387356ecfc6e30fb4430bbdbd30ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 01/55] fix: do not print debug output when typing an operation
 of int and a class instance

---
 opshin/type_impls.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 98bc8b8..47bf243 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -1990,8 +1990,6 @@ class IntegerType(AtomicType):
         )
 
     def _binop_return_type(self, binop: ast.operator, other: "Type") -> "Type":
-        if isinstance(other, InstanceType) and isinstance(other.typ, RecordType):
-            print("Ha")
         if (
             isinstance(binop, ast.Add)
             or isinstance(binop, ast.Sub)
-- 
2.43.0


From a2f6ce020d1d71739dd64af328793bae8e4b7e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 02/55] fix: membership test of PlutusData in a list of builtin
 values

---
 opshin/type_impls.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 47bf243..df01cb1 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -308,10 +308,7 @@ class AnyType(ClassType):
                     ["x", "y"],
                     plt.AnyList(
                         OVar("y"),
-                        plt.Apply(
-                            plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                            OVar("x"),
-                        ),
+                        data_equals_element(OVar("x"), o.typ),
                     ),
                 )
             if isinstance(op, ast.NotIn):
@@ -320,10 +317,7 @@ class AnyType(ClassType):
                     plt.Not(
                         plt.AnyList(
                             OVar("y"),
-                            plt.Apply(
-                                plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                                OVar("x"),
-                            ),
+                            data_equals_element(OVar("x"), o.typ),
                         ),
                     ),
                 )
@@ -914,10 +908,7 @@ class UnionType(ClassType):
                     ["x", "y"],
                     plt.AnyList(
                         OVar("y"),
-                        plt.Apply(
-                            plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                            OVar("x"),
-                        ),
+                        data_equals_element(OVar("x"), o.typ),
                     ),
                 )
             if isinstance(op, ast.NotIn):
@@ -926,10 +917,7 @@ class UnionType(ClassType):
                     plt.Not(
                         plt.AnyList(
                             OVar("y"),
-                            plt.Apply(
-                                plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                                OVar("x"),
-                            ),
+                            data_equals_element(OVar("x"), o.typ),
                         ),
                     ),
                 )
@@ -3542,3 +3530,11 @@ def transform_output_map(p: Type):
         # so pairs will always contain Data
         return lambda x: plt.MapData(x)
     return lambda x: x
+
+
+def data_equals_element(x: plt.AST, element_typ: Type) -> plt.AST:
+    """Predicate comparing the PlutusData x to list elements of type element_typ, which are converted to PlutusData first"""
+    return OLambda(
+        ["element"],
+        plt.EqualsData(x, transform_output_map(element_typ)(OVar("element"))),
+    )
-- 
2.43.0


From 1f3c713ed09ab9b7a57d330f86be24378459edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 03/55] fix: dict displays keep the insertion order of their
 items

---
 opshin/compiler.py | 65 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 12 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index d0324dc..df47161 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1269,20 +1269,61 @@ class PlutoCompiler(CompilingNodeTransformer):
         assert isinstance(node.typ.typ, DictType)
         key_type = node.typ.typ.key_typ
         value_type = node.typ.typ.value_typ
+        items = [
+            (
+                transform_output_map(k.typ)(self.visit(k)),
+                transform_output_map(v.typ)(self.visit(v)),
+            )
+            for k, v in zip(node.keys, node.values)
+        ]
+        keys = [k.value if isinstance(k, Constant) else None for k in node.keys]
+        if len(items) <= 1 or (None not in keys and len(set(keys)) == len(keys)):
+            # distinct keys, the items are simply listed in order
+            l = plt.EmptyDataPairList()
+            for k, v in reversed(items):
+                l = plt.MkCons(plt.MkPairData(k, v), l)
+            return l
+        # keys may coincide: like in Python the first occurrence determines the position, the last one the value
         l = plt.EmptyDataPairList()
-        for k, v in zip(node.keys, node.values):
-            l = plt.MkCons(
-                plt.MkPairData(
-                    transform_output_map(k.typ)(
-                        self.visit(k),
-                    ),
-                    transform_output_map(v.typ)(
-                        self.visit(v),
+        for k, v in items:
+            l = plt.Apply(OVar("insert"), OVar("insert"), l, k, v)
+        return OLet(
+            [
+                (
+                    "insert",
+                    OLambda(
+                        ["insert", "xs", "k", "v"],
+                        plt.IteNullList(
+                            OVar("xs"),
+                            plt.MkCons(
+                                plt.MkPairData(OVar("k"), OVar("v")),
+                                plt.EmptyDataPairList(),
+                            ),
+                            plt.Ite(
+                                plt.EqualsData(
+                                    plt.FstPair(plt.HeadList(OVar("xs"))), OVar("k")
+                                ),
+                                plt.MkCons(
+                                    plt.MkPairData(OVar("k"), OVar("v")),
+                                    plt.TailList(OVar("xs")),
+                                ),
+                                plt.MkCons(
+                                    plt.HeadList(OVar("xs")),
+                                    plt.Apply(
+                                        OVar("insert"),
+                                        OVar("insert"),
+                                        plt.TailList(OVar("xs")),
+                                        OVar("k"),
+                                        OVar("v"),
+                                    ),
+                                ),
+                            ),
+                        ),
                     ),
-                ),
-                l,
-            )
-        return l
+                )
+            ],
+            l,
+        )
 
     def visit_IfExp(self, node: TypedIfExp) -> plt.AST:
         if isinstance(node.typ.typ, UnionType):
-- 
2.43.0


From 319ec60997eabbac60ec431b2c804b1d76ba1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 04/55] fix: int() rejects underscores that are not between
 digits

---
 opshin/type_impls.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index df01cb1..e608b35 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3053,6 +3053,20 @@ class IntImpl(PolymorphicFunction):
                             "is_whitespace",
                             OLambda(["b"], is_whitespace_expr),
                         ),
+                        (
+                            "is_digit",
+                            OLambda(
+                                ["b"],
+                                plt.And(
+                                    plt.LessThanEqualsInteger(
+                                        plt.Integer(ord("0")), OVar("b")
+                                    ),
+                                    plt.LessThanEqualsInteger(
+                                        OVar("b"), plt.Integer(ord("9"))
+                                    ),
+                                ),
+                            ),
+                        ),
                         (
                             "strip_left",
                             plt.RecFun(
@@ -3167,7 +3181,23 @@ class IntImpl(PolymorphicFunction):
                                                 plt.EqualsInteger(
                                                     OVar("b"), plt.Integer(ord("_"))
                                                 ),
-                                                OVar("s"),
+                                                # only between digits
+                                                plt.Ite(
+                                                    plt.Apply(
+                                                        OVar("is_digit"),
+                                                        plt.IndexByteString(
+                                                            OVar("e"),
+                                                            plt.SubtractInteger(
+                                                                OVar("i"),
+                                                                plt.Integer(1),
+                                                            ),
+                                                        ),
+                                                    ),
+                                                    OVar("s"),
+                                                    plt.TraceError(
+                                                        "ValueError: invalid literal for int() with base 10"
+                                                    ),
+                                                ),
                                                 plt.Ite(
                                                     plt.Or(
                                                         plt.LessThanInteger(
-- 
2.43.0


From e8e5b9088b47aa283e898bb8ceadba90bf4cef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 05/55] fix: quotes in the text form of bytes as in Python

---
 opshin/type_impls.py | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index e608b35..0fd5ac9 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -2601,6 +2601,42 @@ class ByteStringType(AtomicType):
                                 ),
                             ),
                         ),
+                        (
+                            "contains",
+                            OLambda(
+                                ["b"],
+                                plt.AnyList(
+                                    plt.Apply(
+                                        OVar("hexlist"),
+                                        plt.SubtractInteger(
+                                            plt.LengthOfByteString(OVar("x")),
+                                            plt.Integer(1),
+                                        ),
+                                    ),
+                                    OLambda(
+                                        ["c"], plt.EqualsInteger(OVar("b"), OVar("c"))
+                                    ),
+                                ),
+                            ),
+                        ),
+                        (
+                            # double quotes are used if this avoids escaping
+                            "quote",
+                            plt.Ite(
+                                plt.And(
+                                    plt.Apply(
+                                        OVar("contains"), plt.Integer(ord("'"))
+                                    ),
+                                    plt.Not(
+                                        plt.Apply(
+                                            OVar("contains"), plt.Integer(ord('"'))
+                                        )
+                                    ),
+                                ),
+                                plt.Integer(ord('"')),
+                                plt.Integer(ord("'")),
+                            ),
+                        ),
                         (
                             "map_str",
                             OLambda(
@@ -2645,7 +2681,7 @@ class ByteStringType(AtomicType):
                                                 plt.Ite(
                                                     plt.EqualsInteger(
                                                         OVar("i"),
-                                                        plt.Integer(ord("'")),
+                                                        OVar("quote"),
                                                     ),
                                                     plt.AppendByteString(
                                                         plt.ByteString(b"\\'"),
@@ -2716,14 +2752,15 @@ class ByteStringType(AtomicType):
                         ),
                     ],
                     plt.ConcatByteString(
-                        plt.ByteString(b"b'"),
+                        plt.ByteString(b"b"),
+                        plt.ConsByteString(OVar("quote"), plt.ByteString(b"")),
                         plt.Apply(
                             OVar("mkstr"),
                             plt.SubtractInteger(
                                 plt.LengthOfByteString(OVar("x")), plt.Integer(1)
                             ),
                         ),
-                        plt.ByteString(b"'"),
+                        plt.ConsByteString(OVar("quote"), plt.ByteString(b"")),
                     ),
                 ),
             ),
-- 
2.43.0


From f25a88c331a6888529e1d9952bf42ce7fc6593f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 06/55] fix: print() without arguments traces an empty line

---
 opshin/fun_impls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/fun_impls.py b/opshin/fun_impls.py
index 73d2cbc..35828c7 100644
--- a/opshin/fun_impls.py
+++ b/opshin/fun_impls.py
@@ -103,7 +103,7 @@ class PrintImpl(PolymorphicFunction):
 
     def impl_from_args(self, args: typing.List[Type]) -> plt.AST:
         if not args:
-            return SafeOLambda([], plt.Trace(plt.Text("\n"), plt.NoneData()))
+            return SafeOLambda([], plt.Trace(plt.Text(""), plt.NoneData()))
         assert all(
             isinstance(arg, InstanceType) for arg in args
         ), "Can only stringify instances"
-- 
2.43.0


From b98f650399bc62423c83cc4b54cb49cc5dcaf73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 07/55] fix: empty lists of lists of dicts and reading lists of
 None

---
 opshin/type_impls.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 0fd5ac9..450c085 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3485,9 +3485,12 @@ def empty_list_sample_value(p: Type):
     if isinstance(p.typ, ListType):
         return uplc.BuiltinList([], empty_list_sample_value(p.typ.typ))
     if isinstance(p.typ, DictType):
-        return uplc.BuiltinPair(
-            uplc.PlutusConstr(0, frozenlist([])),
-            uplc.PlutusConstr(0, frozenlist([])),
+        return uplc.BuiltinList(
+            [],
+            uplc.BuiltinPair(
+                uplc.PlutusConstr(0, frozenlist([])),
+                uplc.PlutusConstr(0, frozenlist([])),
+            ),
         )
     if (
         isinstance(p.typ, RecordType)
@@ -3530,7 +3533,7 @@ TransformExtParamsMap = {
     IntegerInstanceType: lambda x: plt.UnIData(x),
     ByteStringInstanceType: lambda x: plt.UnBData(x),
     StringInstanceType: lambda x: plt.DecodeUtf8(plt.UnBData(x)),
-    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit())),
+    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit()), x),
     BoolInstanceType: lambda x: plt.NotEqualsInteger(plt.UnIData(x), plt.Integer(0)),
 }
 
-- 
2.43.0


From c919a840b9d914b9cf0ab8789802af2af091e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 08/55] fix: slices with a step are rejected instead of
 ignoring the step

---
 opshin/type_inference.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 1baf63d..90fdeb0 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1444,6 +1444,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         ts.value = self.visit(node.value)
         assert isinstance(ts.value.typ, InstanceType), "Can only subscript instances"
+        if isinstance(ts.slice, Slice) and ts.slice.step is not None:
+            assert (
+                isinstance(ts.slice.step, Constant) and ts.slice.step.value == 1
+            ), "Slices with a step other than 1 are not supported"
         if isinstance(ts.value.typ.typ, TupleType):
             assert (
                 ts.value.typ.typ.typs
-- 
2.43.0


From 15a2057c18f8cb1ba0ae6b47922603fe9f9e6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 09/55] fix: variables of different types after branches are
 cast to the merged type

---
 opshin/compiler.py       | 26 +++++++++++++++++++-------
 opshin/type_inference.py | 11 +++++++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index df47161..7ff7e5e 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -891,17 +891,29 @@ class PlutoCompiler(CompilingNodeTransformer):
 
     def visit_If(self, node: TypedIf) -> CallAST:
         written_vs = written_vars(node)
-        pwritten_vs = [plt.Var(x) for x in written_vs]
+
+        def adjusted_next(casts):
+            # variables are passed on in the representation of their type after the branches
+            return SafeApply(
+                OVar("adjusted_next"),
+                *(
+                    (
+                        plt.Delay(
+                            transform_output_to_type(*casts[v])(plt.Force(plt.Var(v)))
+                        )
+                        if v in casts and not isinstance(casts[v][0], DataInstanceType)
+                        else plt.Var(v)
+                    )
+                    for v in written_vs
+                ),
+            )
+
         return lambda x: OLet(
             [("adjusted_next", SafeLambda(written_vs, x))],
             plt.Ite(
                 self.visit(node.test),
-                self.visit_sequence(node.body)(
-                    SafeApply(OVar("adjusted_next"), *copy.deepcopy(pwritten_vs))
-                ),
-                self.visit_sequence(node.orelse)(
-                    SafeApply(OVar("adjusted_next"), *copy.deepcopy(pwritten_vs))
-                ),
+                self.visit_sequence(node.body)(adjusted_next(node.body_casts)),
+                self.visit_sequence(node.orelse)(adjusted_next(node.orelse_casts)),
             ),
         )
 
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 90fdeb0..97eb442 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1179,6 +1179,17 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             (typed_if.body_can_fall_through, final_scope_body),
             (typed_if.orelse_can_fall_through, final_scope_else),
         )
+        # variables of different type in both branches have the merged type afterwards
+        typed_if.body_casts, typed_if.orelse_casts = (
+            {
+                name: (typ, self.scopes[-1][name])
+                for name, typ in branch_scope.items()
+                if isinstance(typ, InstanceType)
+                and strip_data_instance_type(typ)
+                != strip_data_instance_type(self.scopes[-1].get(name, typ))
+            }
+            for branch_scope in (final_scope_body, final_scope_else)
+        )
         return typed_if
 
     def visit_While(self, node: While) -> TypedWhile:
-- 
2.43.0


From 61a22188ea223c37f8147e8af64796c40d9f596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 10/55] fix: combining lists of different element types
 converts the elements

---
 opshin/compiler.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 7ff7e5e..1bac2c0 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -22,6 +22,7 @@ from .type_impls import (
     transform_ext_params_map,
     AnyType,
     transform_output_map,
+    strip_data_instance_type,
     ClassType,
     PolymorphicFunctionInstanceType,
     ListType,
@@ -430,11 +431,14 @@ class PlutoCompiler(CompilingNodeTransformer):
                 op = node.right.typ.rbinop(node.op, node.left)
             except NotImplementedError:
                 raise e
-        return plt.Apply(
-            op,
-            self.visit(node.left),
-            self.visit(node.right),
-        )
+        left, right = self.visit(node.left), self.visit(node.right)
+        if isinstance(node.op, ast.Add) and isinstance(node.typ.typ, ListType):
+            # the elements of both lists must have the representation of the elements of the result
+            left, right = (
+                o if t == node.typ else transform_output_to_type(t, node.typ)(o)
+                for o, t in ((left, node.left.typ), (right, node.right.typ))
+            )
+        return plt.Apply(op, left, right)
 
     def visit_BoolOp(self, node: TypedBoolOp) -> plt.AST:
         op = BoolOpMap.get(type(node.op))
@@ -1266,13 +1270,13 @@ class PlutoCompiler(CompilingNodeTransformer):
     def visit_List(self, node: TypedList) -> plt.AST:
         assert isinstance(node.typ, InstanceType)
         assert isinstance(node.typ.typ, ListType)
-        el_typ = node.typ.typ.typ
+        el_typ = strip_data_instance_type(node.typ.typ.typ)
         l = empty_list(el_typ)
         for e in reversed(node.elts):
             element = self.visit(e)
-            if isinstance(el_typ.typ, AnyType) or isinstance(el_typ.typ, UnionType):
-                # if the function expects input of generic type data, wrap data before passing it inside
-                element = transform_output_map(e.typ)(element)
+            if strip_data_instance_type(e.typ) != el_typ:
+                # elements of a more specific type (e.g. if the list contains generic type data) may have a different representation
+                element = transform_output_to_type(e.typ, el_typ)(element)
             l = plt.MkCons(element, l)
         return l
 
@@ -1346,11 +1350,15 @@ class PlutoCompiler(CompilingNodeTransformer):
             if not isinstance(node.orelse.typ, UnionType):
                 orelse = transform_output_map(node.orelse.typ)(orelse)
             return plt.Ite(self.visit(node.test), body, orelse)
-        return plt.Ite(
-            self.visit(node.test),
-            self.visit(node.body),
-            self.visit(node.orelse),
+        body, orelse = (
+            (
+                transform_output_to_type(o.typ, node.typ)(self.visit(o))
+                if isinstance(node.typ.typ, ListType) and o.typ != node.typ
+                else self.visit(o)
+            )
+            for o in (node.body, node.orelse)
         )
+        return plt.Ite(self.visit(node.test), body, orelse)
 
     def visit_ListComp(self, node: TypedListComp) -> plt.AST:
         assert len(node.generators) == 1, "Currently only one generator supported"
-- 
2.43.0


From a2d09d1da2539c26aeda8f2740195b7dd8667c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 11/55] fix: containers of narrowed variables hold values in
 their own representation

---
 opshin/type_inference.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 97eb442..7270696 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1044,7 +1044,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
     def visit_Tuple(self, node: Tuple) -> TypedTuple:
         tt = copy(node)
         tt.elts = [self.visit(e) for e in node.elts]
-        tt.typ = InstanceType(RawTupleType(frozenlist([e.typ for e in tt.elts])))
+        tt.typ = InstanceType(
+            RawTupleType(frozenlist([strip_data_instance_type(e.typ) for e in tt.elts]))
+        )
         return tt
 
     def visit_List(self, node: List) -> TypedList:
@@ -1054,7 +1056,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             isinstance(e.typ, InstanceType) for e in tt.elts
         ), f"All list elements must be instances of a class, found class types {', '.join(e.typ.python_type() for e in tt.elts if not isinstance(e.typ, InstanceType))}"
         # try to derive a max type
-        max_typ = find_max_type(tt.elts)
+        max_typ = strip_data_instance_type(find_max_type(tt.elts))
         tt.typ = InstanceType(ListType(max_typ))
         return tt
 
@@ -1066,8 +1068,8 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             isinstance(e.typ, InstanceType) for e in tt.keys
         ), f"All keys of a dict must be instances of a class, found class types {', '.join(e.typ.python_type() for e in tt.keys if not isinstance(e.typ, InstanceType))}"
         # try to derive a max type
-        k_typ = find_max_type(tt.keys)
-        v_typ = find_max_type(tt.values)
+        k_typ = strip_data_instance_type(find_max_type(tt.keys))
+        v_typ = strip_data_instance_type(find_max_type(tt.values))
         tt.typ = InstanceType(DictType(k_typ, v_typ))
         return tt
 
@@ -1814,7 +1816,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         self.implement_typechecks(prevtyps)
 
         self.exit_scope()
-        typed_listcomp.typ = InstanceType(ListType(typed_listcomp.elt.typ))
+        typed_listcomp.typ = InstanceType(
+            ListType(strip_data_instance_type(typed_listcomp.elt.typ))
+        )
         return typed_listcomp
 
     def visit_DictComp(self, node: DictComp) -> TypedDictComp:
@@ -1844,7 +1848,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         self.exit_scope()
         typed_dictcomp.typ = InstanceType(
-            DictType(typed_dictcomp.key.typ, typed_dictcomp.value.typ)
+            DictType(
+                strip_data_instance_type(typed_dictcomp.key.typ),
+                strip_data_instance_type(typed_dictcomp.value.typ),
+            )
         )
         return typed_dictcomp
 
-- 
2.43.0


From f7866a0294b18375abb279082568b0e7647a486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 12/55] fix: != uses a custom __eq__ as in Python when there is
 no __ne__

---
 opshin/type_inference.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 7270696..e9c5b25 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -678,6 +678,14 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         dunder_name = DUNDER_MAP[operation.__class__]
         receiver_class_name = receiver_type.typ.record.name
         resolved_method_name = method_name(receiver_class_name, dunder_name)
+        negate_result = isinstance(operation, ast.NotIn)
+        if isinstance(operation, ast.NotEq) and not any(
+            resolved_method_name in scope for scope in self.scopes
+        ):
+            # as in Python, the default __ne__ negates __eq__
+            dunder_name = DUNDER_MAP[ast.Eq]
+            resolved_method_name = method_name(receiver_class_name, dunder_name)
+            negate_result = True
         if not any(resolved_method_name in scope for scope in self.scopes):
             return None
         return DunderCompareOverride(
@@ -685,7 +693,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             function_type=self.variable_type(resolved_method_name),
             dunder_name=dunder_name,
             receiver_right=receiver_right,
-            negate_result=isinstance(operation, ast.NotIn),
+            negate_result=negate_result,
             receiver=receiver,
             argument=argument,
         )
-- 
2.43.0


From 6b7116f7e3ccb5bbf3c0a1df600873ca45c14706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 13/55] fix: constant folding keeps instances of classes with
 methods

---
 opshin/optimize/optimize_const_folding.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 97006c9..4abd8a0 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -175,6 +175,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         ]
         self.scopes_constants = [dict()]
         self.constants = OrderedSet()
+        self.classes_with_methods = OrderedSet()
 
     def enter_scope(self):
         self.scopes_visible.append(OrderedSet())
@@ -275,10 +276,28 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         return res_node
 
     def visit_ClassDef(self, node: ClassDef):
+        if any(isinstance(n, FunctionDef) for n in node.body):
+            self.classes_with_methods.add(node.name)
         if node.name in self.constants:
             self.update_constants(node)
         return node
 
+    def _contains_instance_with_methods(self, value: typing.Any) -> bool:
+        """The type of a constant does not know about the methods of its class"""
+        if isinstance(value, PlutusData):
+            return type(value).__name__ in self.classes_with_methods or any(
+                self._contains_instance_with_methods(v) for v in vars(value).values()
+            )
+        if isinstance(value, dict):
+            return any(
+                self._contains_instance_with_methods(v)
+                for kv in value.items()
+                for v in kv
+            )
+        if isinstance(value, list):
+            return any(self._contains_instance_with_methods(v) for v in value)
+        return False
+
     def visit_ImportFrom(self, node: ImportFrom):
         if all(n in self.constants for n in node.names):
             self.update_constants(node)
@@ -336,6 +355,8 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             OPSHIN_LOGGER.debug("Error trying to evaluate node: %s", e)
             return node
 
+        if self._contains_instance_with_methods(node_eval):
+            return node
         if any(
             isinstance(node_eval, t)
             for t in ACCEPTED_ATOMIC_TYPES + [list, dict, PlutusData]
-- 
2.43.0


From 19e4c018eaa3b83cdc23cd3f47737216c5cca437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 14/55] fix: methods are defined right after their class,
 before they are used at module level

---
 opshin/type_inference.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index e9c5b25..4da6d51 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -881,9 +881,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
     def lower_class_methods_in_sequence(
         self, node_seq: typing.List[stmt]
     ) -> typing.List[stmt]:
-        node_seq_cp = list(node_seq)
-        additional_functions = []
-        for n in node_seq_cp:
+        lowered_node_seq = []
+        for n in node_seq:
+            lowered_node_seq.append(n)
             if not isinstance(n, ast.ClassDef):
                 continue
             method_names = {
@@ -957,13 +957,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     f"{n.name}_+_{method_name}"
                     for method_name in called_self_methods.called
                 }
-                additional_functions.append(func)
+                lowered_node_seq.append(func)
             n.body = non_method_attributes
-        if additional_functions:
-            last = node_seq_cp.pop()
-            node_seq_cp.extend(additional_functions)
-            node_seq_cp.append(last)
-        return node_seq_cp
+        return lowered_node_seq
 
     def visit_sequence_under_typechecks(
         self, node_seq: typing.List[stmt], typchecks: TypeMap
-- 
2.43.0


From 214e3664b42394a35cf3ecfbf150d21ca0fa2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 15/55] fix: equals_string returns a boolean

---
 opshin/std/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/std/builtins.py b/opshin/std/builtins.py
index 8ffc826..7fb2d0a 100644
--- a/opshin/std/builtins.py
+++ b/opshin/std/builtins.py
@@ -167,7 +167,7 @@ def append_string(x: str, y: str) -> str:
 
 
 @wraps_builtin
-def equals_string(x: str, y: str) -> str:
+def equals_string(x: str, y: str) -> bool:
     """Returns x == y."""
     pass
 
-- 
2.43.0


From 6d6dd3d51ff6eea78c6c23e40e89c22aee50eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 16/55] fix: builtins of the second BLS group take and return
 its elements

---
 opshin/std/builtins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opshin/std/builtins.py b/opshin/std/builtins.py
index 7fb2d0a..4da6f04 100644
--- a/opshin/std/builtins.py
+++ b/opshin/std/builtins.py
@@ -256,19 +256,19 @@ def bls12_381_g2_compress(a: BLS12381G2Element) -> bytes:
 
 
 @wraps_builtin
-def bls12_381_g2_add(a: BLS12381G1Element, b: BLS12381G1Element) -> BLS12381G1Element:
+def bls12_381_g2_add(a: BLS12381G2Element, b: BLS12381G2Element) -> BLS12381G2Element:
     """Adds two elements of the G1 group in BLS12_381"""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_neg(a: BLS12381G1Element) -> BLS12381G1Element:
+def bls12_381_g2_neg(a: BLS12381G2Element) -> BLS12381G2Element:
     """Negate an element of the G1 group in BLS12_381."""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_scalar_mul(a: int, b: BLS12381G1Element) -> BLS12381G1Element:
+def bls12_381_g2_scalar_mul(a: int, b: BLS12381G2Element) -> BLS12381G2Element:
     """Multiply an element of the G1 group in BLS12_381 with a scalar integer"""
     pass
 
-- 
2.43.0


From 4ea681f268e7f89e36c96c9b3a86f820ce04ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 17/55] fix: off-chain builtins take empty lists and any data,
 as on-chain

---
 opshin/bridge.py | 49 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/opshin/bridge.py b/opshin/bridge.py
index 87d7374..537e865 100644
--- a/opshin/bridge.py
+++ b/opshin/bridge.py
@@ -1,11 +1,13 @@
 """Bridging tools between uplc and opshin"""
 
 from functools import wraps
+from itertools import chain, repeat
 
 import re
+import typing
 
 import uplc.ast
-from pycardano import PlutusData, RawCBOR
+from pycardano import Datum as Anything, IndefiniteList, PlutusData, RawCBOR
 
 from opshin.std.bls12_381 import (
     BLS12381G1Element,
@@ -14,7 +16,39 @@ from opshin.std.bls12_381 import (
 )
 
 
-def to_uplc_builtin(a):
+def to_uplc_data(a):
+    """Converts to the data that represents a value of type Anything on-chain"""
+    if a is None:
+        return uplc.ast.PlutusConstr(0, [])
+    if isinstance(a, int):
+        return uplc.ast.PlutusInteger(int(a))
+    if isinstance(a, str):
+        return uplc.ast.PlutusByteString(a.encode("utf8"))
+    if isinstance(a, bytes):
+        return uplc.ast.PlutusByteString(a)
+    if isinstance(a, (list, IndefiniteList)):
+        return uplc.ast.PlutusList([to_uplc_data(x) for x in a])
+    if isinstance(a, dict):
+        return uplc.ast.PlutusMap(
+            {to_uplc_data(k): to_uplc_data(v) for k, v in a.items()}
+        )
+    if isinstance(a, RawCBOR):
+        return uplc.ast.data_from_cbor(a.cbor)
+    if isinstance(a, PlutusData):
+        return uplc.ast.data_from_cbor(a.to_cbor())
+    raise NotImplementedError(f"Cannot convert {a} to uplc data")
+
+
+# determines the type of empty lists
+EMPTY_LIST_SAMPLES = {
+    int: uplc.ast.BuiltinInteger(0),
+    Anything: uplc.ast.PlutusInteger(0),
+}
+
+
+def to_uplc_builtin(a, typ=None):
+    if typ == Anything:
+        return to_uplc_data(a)
     if isinstance(a, bool):
         return uplc.ast.BuiltinBool(a)
     if isinstance(a, int):
@@ -24,7 +58,10 @@ def to_uplc_builtin(a):
     if isinstance(a, bytes):
         return uplc.ast.BuiltinByteString(a)
     if isinstance(a, list):
-        return uplc.ast.BuiltinList(list(map(to_uplc_builtin, a)))
+        (el_typ,) = typing.get_args(typ) or (None,)
+        return uplc.ast.BuiltinList(
+            [to_uplc_builtin(x, el_typ) for x in a], EMPTY_LIST_SAMPLES.get(el_typ)
+        )
     if isinstance(a, PlutusData):
         return uplc.ast.data_from_cbor(a.to_cbor())
     if isinstance(a, BLS12381G1Element):
@@ -86,6 +123,8 @@ def to_uplc_fun_name(snake_case_fun_name: str) -> str:
 def wraps_builtin(func):
     snake_case_fun_name = func.__name__
     CamelCaseFunName = to_uplc_fun_name(snake_case_fun_name)
+    arg_names = func.__code__.co_varnames[: func.__code__.co_argcount]
+    arg_types = [func.__annotations__.get(n) for n in arg_names]
 
     @wraps(func)
     def wrapped(*args):
@@ -95,7 +134,9 @@ def wraps_builtin(func):
         """
         uplc_fun = uplc.ast.BuiltInFun.__dict__[CamelCaseFunName]
         return to_python(
-            uplc.ast.BuiltInFunEvalMap[uplc_fun](*(map(to_uplc_builtin, args)))
+            uplc.ast.BuiltInFunEvalMap[uplc_fun](
+                *map(to_uplc_builtin, args, chain(arg_types, repeat(None)))
+            )
         )
 
     return wrapped
-- 
2.43.0


From d8cdd83c18bdf580ecb458171916416c9ed535c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 18/55] fix: bind wrapped builtins to the builtin of their name

quotient_integer was compiled to multiplyInteger, because pluthon's helper of
that name refers to it.
---
 opshin/rewrite/rewrite_import_uplc_builtins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opshin/rewrite/rewrite_import_uplc_builtins.py b/opshin/rewrite/rewrite_import_uplc_builtins.py
index c7a52ec..0f8aebb 100644
--- a/opshin/rewrite/rewrite_import_uplc_builtins.py
+++ b/opshin/rewrite/rewrite_import_uplc_builtins.py
@@ -4,6 +4,7 @@ from copy import copy
 from typing import Optional
 
 import pluthon as plt
+import uplc.ast
 from ..bridge import to_uplc_fun_name
 
 from ..util import CompilingNodeTransformer
@@ -47,10 +48,15 @@ class RewriteImportUPLCBuiltins(CompilingNodeTransformer):
             "_Signature"
         ):
             CamelCaseFunName = CamelCaseFunName.removesuffix("_Signature") + "Signature"
-        uplc_fun = plt.__dict__[CamelCaseFunName]
+        # bind the builtin itself, the helpers of pluthon do not all refer to the builtin of their name
+        builtin_fun = uplc.ast.BuiltInFun.__dict__[CamelCaseFunName]
+        uplc_fun = plt.BuiltIn(builtin_fun)
+        for _ in range(uplc.ast.BuiltInFunForceMap[builtin_fun]):
+            uplc_fun = plt.Force(uplc_fun)
         pluto_expression = RawPlutoExpr(
             typ=node.typ.typ.rettyp,
-            expr=uplc_fun(
+            expr=plt.Apply(
+                uplc_fun,
                 *(plt.Force(plt.Var(a.arg)) for a in node.args.args),
             ),
         )
-- 
2.43.0


From 5ce2ce9fff7a2756b714a005a3fc7107898b4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 19/55] fix: applying parameters keeps the license of a
 contract

---
 opshin/builder.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 697379c..a45e3b5 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -158,15 +158,10 @@ class PlutusContract:
             # TODO validate that the applied parameters are of the correct type
             new_parameter_types.pop(0)
         new_contract_contract = apply_parameters(self.contract, *args)
-        new_contract = PlutusContract(
-            new_contract_contract,
-            self.datum_type,
-            self.redeemer_type,
-            new_parameter_types,
-            self.purpose,
-            self.version,
-            self.title,
-            self.description,
+        new_contract = dataclasses.replace(
+            self,
+            contract=new_contract_contract,
+            parameter_types=new_parameter_types,
         )
         return new_contract
 
-- 
2.43.0


From 0a5d94a608785ae4a4ef651e936c61129e64a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 20/55] fix: applying parameters keeps the language version of
 a contract

A script built by the command line tool (version 1.1.0) became a different
script when its parameters were applied to the artefact instead of passed to
the build command.
---
 opshin/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index a45e3b5..2a7b3f0 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -415,7 +415,7 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
                 else d
             ),
         )
-    code = uplc.ast.Program((1, 0, 0), code)
+    code = uplc.ast.Program(script.version, code)
     return code
 
 
-- 
2.43.0


From ff74c7ac33a74bf5b7f36c96b1d4a50bf6f7fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 21/55] fix: load blueprints without datum, redeemer or
 parameters

---
 opshin/builder.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 2a7b3f0..02ee592 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -444,19 +444,30 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
                 validator = contract["validators"][0]
                 # TODO this should be controlled by the version in the preamble
                 contract_cbor = PlutusV3Script(bytes.fromhex(validator["compiledCode"]))
+                # datum, redeemer and parameters are only present if specified
                 datum_type = (
-                    validator["datum"]["title"],
-                    from_plutus_schema(validator["datum"]["schema"]),
+                    (
+                        validator["datum"]["title"],
+                        from_plutus_schema(validator["datum"]["schema"]),
+                    )
+                    if validator.get("datum")
+                    else None
                 )
                 redeemer_type = (
-                    validator["redeemer"]["title"],
-                    from_plutus_schema(validator["redeemer"]["schema"]),
+                    (
+                        validator["redeemer"]["title"],
+                        from_plutus_schema(validator["redeemer"]["schema"]),
+                    )
+                    if validator.get("redeemer")
+                    else None
                 )
                 parameter_types = [
                     (p["title"], from_plutus_schema(p["schema"]))
-                    for p in validator["parameters"]
+                    for p in validator.get("parameters", [])
                 ]
-                if "oneOf" in validator["redeemer"]["purpose"]:
+                if redeemer_type is None:
+                    purpose = [Purpose.any]
+                elif "oneOf" in validator["redeemer"]["purpose"]:
                     purpose = [
                         k
                         for k, v in PURPOSE_MAP.items()
-- 
2.43.0


From 47c069c801306a8c9c004116421d6351feacfe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 22/55] fix: load script.cbor files as dumped

The flat encoded program starts with a byte that is a cbor integer, so the
singly wrapped script was taken for a doubly wrapped one and unwrapped.
---
 opshin/builder.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 02ee592..a771295 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -419,6 +419,20 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
     return code
 
 
+def unwrap_cbor_bytes(cbor: bytes) -> bytes:
+    """
+    Returns the bytestring that is encoded by exactly these bytes
+    (the flat encoding of a program also starts like some cbor object)
+    """
+    try:
+        unwrapped = cbor2.loads(cbor)
+    except Exception as e:
+        raise ValueError("Not valid cbor") from e
+    if not isinstance(unwrapped, bytes) or cbor2.dumps(unwrapped) != cbor:
+        raise ValueError("Not exactly one bytestring")
+    return unwrapped
+
+
 def load(contract_path: Union[Path, str]) -> PlutusContract:
     """
     Load a contract from a file or directory and generate the artifacts
@@ -506,11 +520,11 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
         # could be a singly wrapped cbor hex
         try:
             # try to unwrap to see if it is cbor
-            contract_cbor_unwrapped = cbor2.loads(bytes.fromhex(contract_content))
+            contract_cbor_unwrapped = unwrap_cbor_bytes(bytes.fromhex(contract_content))
             contract_cbor = bytes.fromhex(contract_content)
             # if we can unwrap again, its doubly wrapped
             try:
-                cbor2.loads(contract_cbor_unwrapped)
+                unwrap_cbor_bytes(contract_cbor_unwrapped)
                 contract_cbor = contract_cbor_unwrapped
             except ValueError:
                 pass
-- 
2.43.0


From 43aad949a1ab87c2a7fd97a37b0134b2c7aa538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 23/55] fix: the built blueprint does not list parameters that
 are already applied

---
 opshin/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index e855ab9..cd73ca3 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -422,7 +422,8 @@ Note that opshin errors may be overly restrictive as they aim to prevent code wi
             # TODO this actually does not work anymore
             datum_type=None,
             redeemer_type=None,
-            parameter_types=param_types,
+            # the leading parameters are already applied
+            parameter_types=param_types[len(uplc_params) :],
             purpose=(Purpose.any,),
             title=pathlib.Path(input_file).stem,
         )
-- 
2.43.0


From 1d1a6a0fbfe2c5c4e0d2de8f14c756187d3cc7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 24/55] fix: read the contract from stdin if the input file is
 -

---
 opshin/__main__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index cd73ca3..1402433 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -258,10 +258,13 @@ def perform_command(args):
 
     # execute the command
     command = Command(args.command)
-    input_file = args.input_file if args.input_file != "-" else sys.stdin
+    input_file = args.input_file
     # read and import the contract
-    with open(input_file, "r") as f:
-        source_code = f.read()
+    if input_file == "-":
+        source_code = sys.stdin.read()
+    else:
+        with open(input_file, "r") as f:
+            source_code = f.read()
     with tempfile.TemporaryDirectory(prefix="build") as tmpdir:
         tmp_input_file = pathlib.Path(tmpdir).joinpath(f"__tmp_opshin{uuid.uuid4()}.py")
         with tmp_input_file.open("w") as fp:
-- 
2.43.0


From 0775a1905ce108bb15d71e3663064fd0f297f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 25/55] fix: blueprints describe strings and None

---
 opshin/builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index a771295..e0435fe 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -292,6 +292,9 @@ def to_plutus_schema(cls: typing.Type[Datum]) -> dict:
     """
     if cls == Datum:
         return {}
+    if cls is None or cls is type(None):
+        # None is encoded as the empty constructor 0
+        return {"dataType": "constructor", "index": 0, "fields": [], "title": "Unit"}
     if hasattr(cls, "__origin__") and cls.__origin__ is list:
         return {
             "dataType": "list",
@@ -334,7 +337,8 @@ def to_plutus_schema(cls: typing.Type[Datum]) -> dict:
             "fields": fields,
             "title": cls.__name__,
         }
-    elif issubclass(cls, bytes):
+    elif issubclass(cls, (bytes, str)):
+        # strings are encoded as utf8 bytes
         return {"dataType": "bytes"}
     elif issubclass(cls, int):
         return {"dataType": "integer"}
-- 
2.43.0


From 10c40664b3e190bb73dae19c126b083ab44eb898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 26/55] fix: importing check_integrity binds the name in the
 importing program only

---
 .../rewrite/rewrite_import_integrity_check.py   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/opshin/rewrite/rewrite_import_integrity_check.py b/opshin/rewrite/rewrite_import_integrity_check.py
index c83a403..291a88f 100644
--- a/opshin/rewrite/rewrite_import_integrity_check.py
+++ b/opshin/rewrite/rewrite_import_integrity_check.py
@@ -1,6 +1,5 @@
 import typing
-from _ast import ImportFrom, AST
-from typing import Optional
+from _ast import ImportFrom, AST, Store
 import pluthon as plt
 
 from ..type_impls import (
@@ -53,9 +52,10 @@ class IntegrityCheckImpl(PolymorphicFunction):
 class RewriteImportIntegrityCheck(CompilingNodeTransformer):
     step = "Resolving imports and usage of integrity check"
 
-    def visit_ImportFrom(self, node: ImportFrom) -> Optional[AST]:
+    def visit_ImportFrom(self, node: ImportFrom) -> typing.Union[typing.List[AST], AST]:
         if node.module != "opshin.std.integrity":
             return node
+        additional_assigns = []
         for n in node.names:
             assert (
                 n.name == FunctionName
@@ -64,7 +64,12 @@ class RewriteImportIntegrityCheck(CompilingNodeTransformer):
             assert (
                 renamed not in INITIAL_SCOPE or renamed == FunctionName
             ), f"Name '{renamed}' is a reserved name, cannot import {FunctionName} with that name."
-            INITIAL_SCOPE[renamed] = InstanceType(
-                PolymorphicFunctionType(IntegrityCheckImpl())
+            # bind the name in this program only, the initial scope is shared
+            typ = InstanceType(PolymorphicFunctionType(IntegrityCheckImpl()))
+            additional_assigns.append(
+                TypedAssign(
+                    targets=[TypedName(id=renamed, typ=typ, ctx=Store())],
+                    value=RawPlutoExpr(typ=typ, expr=plt.Unit()),
+                )
             )
-        return None
+        return additional_assigns
-- 
2.43.0


From dd0281db834e237c55ab40e113e136de07f68f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:01 +0000
Subject: [PATCH 27/55] fix: resolve relative imports relative to the importing
 package

---
 opshin/rewrite/rewrite_import.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opshin/rewrite/rewrite_import.py b/opshin/rewrite/rewrite_import.py
index 052d40b..238322a 100644
--- a/opshin/rewrite/rewrite_import.py
+++ b/opshin/rewrite/rewrite_import.py
@@ -94,9 +94,13 @@ class RewriteImport(CompilingNodeTransformer):
         # TODO set anchor point according to own package
         if self.filename:
             sys.path.append(str(pathlib.Path(self.filename).parent.absolute()))
-        module = import_module(node.module, self.package)
-        if self.filename:
-            sys.path.pop()
+        try:
+            module = import_module(
+                "." * (node.level or 0) + (node.module or ""), self.package
+            )
+        finally:
+            if self.filename:
+                sys.path.pop()
         module_file = pathlib.Path(module.__file__)
         if module_file.suffix == ".pyc":
             module_file = module_file.with_suffix(".py")
-- 
2.43.0


From 3f1811275c194cdcc8f3ba99b21dc001e08111fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 28/55] fix: do not mix up modules of the same name from
 different places

---
 opshin/rewrite/rewrite_import.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opshin/rewrite/rewrite_import.py b/opshin/rewrite/rewrite_import.py
index 238322a..e5cc4af 100644
--- a/opshin/rewrite/rewrite_import.py
+++ b/opshin/rewrite/rewrite_import.py
@@ -18,11 +18,6 @@ Checks that there was an import of dataclass if there are any class definitions
 def import_module(name, package=None):
     """An approximate implementation of import."""
     absolute_name = importlib.util.resolve_name(name, package)
-    try:
-        return sys.modules[absolute_name]
-    except KeyError:
-        pass
-
     path = None
     spec = None
     error_msg = None
@@ -37,6 +32,13 @@ def import_module(name, package=None):
                 break
     except (ImportError, AttributeError) as e:
         error_msg = str(e)
+    loaded = sys.modules.get(absolute_name)
+    if loaded is not None and (
+        spec is None
+        or spec.origin == getattr(getattr(loaded, "__spec__", None), "origin", None)
+    ):
+        # not a module of the same name that was imported from somewhere else
+        return loaded
     if spec is None:
         msg = f"No module named {absolute_name!r}"
         if error_msg:
-- 
2.43.0


From c0ff8bf1a93998cddedde3f8aa18fb68cb1d0241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 29/55] fix: importing a failing module fails every time

---
 opshin/rewrite/rewrite_import.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opshin/rewrite/rewrite_import.py b/opshin/rewrite/rewrite_import.py
index e5cc4af..46802ab 100644
--- a/opshin/rewrite/rewrite_import.py
+++ b/opshin/rewrite/rewrite_import.py
@@ -46,7 +46,12 @@ def import_module(name, package=None):
         raise ModuleNotFoundError(msg, name=absolute_name)
     module = importlib.util.module_from_spec(spec)
     sys.modules[absolute_name] = module
-    spec.loader.exec_module(module)
+    try:
+        spec.loader.exec_module(module)
+    except BaseException:
+        # as in python, a module that fails to import is not imported
+        sys.modules.pop(absolute_name, None)
+        raise
     if path is not None:
         setattr(parent_module, child_name, module)
     return module
-- 
2.43.0


From 680077ee49366a93b718eb121724bcba26d78b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 30/55] fix: evaluate the sliced value only once

---
 opshin/compiler.py       | 28 ++++++++++++++++++----------
 opshin/type_inference.py | 30 ++++++++++++------------------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 1bac2c0..e471ec2 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1030,9 +1030,6 @@ class PlutoCompiler(CompilingNodeTransformer):
                     ),
                 )
             else:
-                assert (
-                    node.slice.upper is not None
-                ), "Only slices with upper bound supported"
                 assert (
                     node.slice.lower is not None
                 ), "Only slices with lower bound supported"
@@ -1059,7 +1056,11 @@ class PlutoCompiler(CompilingNodeTransformer):
                         ),
                         (
                             "raw_j",
-                            self.visit(node.slice.upper),
+                            (
+                                self.visit(node.slice.upper)
+                                if node.slice.upper is not None
+                                else plt.LengthList(OVar("xs"))
+                            ),
                         ),
                         (
                             "j",
@@ -1132,11 +1133,14 @@ class PlutoCompiler(CompilingNodeTransformer):
                         self.visit(node.slice),
                     )
                 elif isinstance(node.slice, Constant) and node.slice.value < 0:
-                    return plt.IndexByteString(
-                        self.visit(node.value),
-                        plt.AddInteger(
-                            self.visit(node.slice),
-                            plt.LengthOfByteString(self.visit(node.value)),
+                    return OLet(
+                        [("bs", self.visit(node.value))],
+                        plt.IndexByteString(
+                            OVar("bs"),
+                            plt.AddInteger(
+                                self.visit(node.slice),
+                                plt.LengthOfByteString(OVar("bs")),
+                            ),
                         ),
                     )
                 return OLet(
@@ -1187,7 +1191,11 @@ class PlutoCompiler(CompilingNodeTransformer):
                         ),
                         (
                             "raw_j",
-                            self.visit(node.slice.upper),
+                            (
+                                self.visit(node.slice.upper)
+                                if node.slice.upper is not None
+                                else plt.LengthOfByteString(OVar("bs"))
+                            ),
                         ),
                         (
                             "j",
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 4da6d51..e942ee8 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1511,15 +1511,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 assert (
                     ts.slice.lower.typ == IntegerInstanceType
                 ), f"Lower slice indices for lists must be integers, found {ts.slice.lower.typ.python_type()} for list {ts.value.typ.python_type()}"
-                if ts.slice.upper is None:
-                    ts.slice.upper = Call(
-                        func=Name(id="len", ctx=Load()), args=[ts.value], keywords=[]
-                    )
-                    ts.slice.upper.func.orig_id = "len"
-                ts.slice.upper = self.visit(node.slice.upper)
-                assert (
-                    ts.slice.upper.typ == IntegerInstanceType
-                ), f"Upper slice indices for lists must be integers, found {ts.slice.upper.typ.python_type()} for list {ts.value.typ.python_type()}"
+                # if there is no upper bound, the length of the value is used
+                if ts.slice.upper is not None:
+                    ts.slice.upper = self.visit(node.slice.upper)
+                    assert (
+                        ts.slice.upper.typ == IntegerInstanceType
+                    ), f"Upper slice indices for lists must be integers, found {ts.slice.upper.typ.python_type()} for list {ts.value.typ.python_type()}"
         elif isinstance(ts.value.typ.typ, ByteStringType):
             if not isinstance(ts.slice, Slice):
                 ts.typ = IntegerInstanceType
@@ -1535,15 +1532,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 assert (
                     ts.slice.lower.typ == IntegerInstanceType
                 ), f"Lower slice indices for bytes must be integers, found {ts.slice.lower.typ.python_type()}"
-                if ts.slice.upper is None:
-                    ts.slice.upper = Call(
-                        func=Name(id="len", ctx=Load()), args=[ts.value], keywords=[]
-                    )
-                    ts.slice.upper.func.orig_id = "len"
-                ts.slice.upper = self.visit(node.slice.upper)
-                assert (
-                    ts.slice.upper.typ == IntegerInstanceType
-                ), f"Upper slice indices for bytes must be integers, found {ts.slice.upper.typ.python_type()}"
+                # if there is no upper bound, the length of the value is used
+                if ts.slice.upper is not None:
+                    ts.slice.upper = self.visit(node.slice.upper)
+                    assert (
+                        ts.slice.upper.typ == IntegerInstanceType
+                    ), f"Upper slice indices for bytes must be integers, found {ts.slice.upper.typ.python_type()}"
         elif isinstance(ts.value.typ.typ, DictType):
             if not isinstance(ts.slice, Slice):
                 ts.slice = self.visit(node.slice)
-- 
2.43.0


From 8e8fed8ff58190d384608986780146abf5f3383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 31/55] fix: evaluate a dict before its subscript

---
 opshin/compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index e471ec2..b1239e8 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1102,17 +1102,21 @@ class PlutoCompiler(CompilingNodeTransformer):
             if not isinstance(node.slice, Slice):
                 return OLet(
                     [
+                        (
+                            "dict",
+                            self.visit(node.value),
+                        ),
                         (
                             "key",
                             transform_output_map(node.slice.typ)(
                                 self.visit(node.slice),
                             ),
-                        )
+                        ),
                     ],
                     transform_ext_params_map(dict_typ.value_typ)(
                         plt.SndPair(
                             plt.FindList(
-                                self.visit(node.value),
+                                OVar("dict"),
                                 OLambda(
                                     ["x"],
                                     plt.EqualsData(
-- 
2.43.0


From 9947c41090b352f15efc96c8319881edac3d3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 32/55] fix: evaluate an object before the arguments of its
 method

---
 opshin/compiler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index b1239e8..2bdfa04 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -753,8 +753,13 @@ class PlutoCompiler(CompilingNodeTransformer):
         # as this is a variable assignment
         # Also bring all states of variables read inside the function into scope / update with value in current state
         # before call to simulate statemonad with current state being passed in
+        bindings = [(f"p{i}", a) for i, a in enumerate(args)]
+        if isinstance(node.func, ast.Attribute):
+            # the object is evaluated before the arguments of its method
+            bindings.insert(0, ("func", func_plt))
+            func_plt = OVar("func")
         return OLet(
-            [(f"p{i}", a) for i, a in enumerate(args)],
+            bindings,
             SafeApply(
                 func_plt,
                 *([plt.Var(bind_self)] if bind_self is not None else []),
-- 
2.43.0


From 4d9f2bcfcc11c02c0de540cfa22d5cad142badf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 33/55] fix: evaluate keyword arguments and reflected operands
 in the order they are written

---
 opshin/compiler.py       |  5 ++++-
 opshin/type_inference.py | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 2bdfa04..b41871a 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -753,7 +753,10 @@ class PlutoCompiler(CompilingNodeTransformer):
         # as this is a variable assignment
         # Also bring all states of variables read inside the function into scope / update with value in current state
         # before call to simulate statemonad with current state being passed in
-        bindings = [(f"p{i}", a) for i, a in enumerate(args)]
+        bindings = [
+            (f"p{i}", args[i])
+            for i in getattr(node, "evaluation_order", range(len(args)))
+        ]
         if isinstance(node.func, ast.Attribute):
             # the object is evaluated before the arguments of its method
             bindings.insert(0, ("func", func_plt))
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index e942ee8..bfb2ffe 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -764,7 +764,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 )
                 call.func.orig_id = f"{right_class_name}.{dunder}"
                 call.func.id = resolved_method_name
-                return self.visit_Call(call)
+                call = self.visit_Call(call)
+                # the left operand is evaluated first
+                call.evaluation_order = [1, 0]
+                return call
         return None
 
     def type_from_annotation(self, ann: expr):
@@ -1583,6 +1586,11 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             ), f"Could not match the keywords {[keyword.arg for keyword in keywords]} to any argument"
             tc.args = args
             tc.keywords = []
+            # arguments are passed by position but evaluated as written
+            arg_names = [a.orig_arg for a in reg_args]
+            tc.evaluation_order = list(range(len(node.args))) + [
+                arg_names.index(keyword.arg) for keyword in node.keywords
+            ]
         else:
             tc.args = [self.visit(a) for a in node.args]
 
-- 
2.43.0


From d58faaca8644ff52877a63549c4733a89cf4a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:19 +0000
Subject: [PATCH 34/55] fix: functions do not capture names of polymorphic
 builtins

---
 opshin/rewrite/rewrite_function_closures.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opshin/rewrite/rewrite_function_closures.py b/opshin/rewrite/rewrite_function_closures.py
index 3a39f8e..104acba 100644
--- a/opshin/rewrite/rewrite_function_closures.py
+++ b/opshin/rewrite/rewrite_function_closures.py
@@ -2,7 +2,12 @@ from ast import *
 from copy import copy
 from typing import Optional
 
-from ..type_impls import CLOSURE_PLACEHOLDER, FunctionType, InstanceType
+from ..type_impls import (
+    CLOSURE_PLACEHOLDER,
+    FunctionType,
+    InstanceType,
+    PolymorphicFunctionInstanceType,
+)
 from ..rewrite.rewrite_cast_condition import SPECIAL_BOOL
 from ..type_inference import INITIAL_SCOPE, union_types
 from ..typed_util import (
@@ -142,6 +147,8 @@ class RewriteFunctionClosures(ScopedSequenceNodeTransformer):
                     isinstance(node.ctx, Load)
                     and node.id in self.target_names
                     and hasattr(node, "typ")
+                    # implemented at the call site, not read from the variable
+                    and not isinstance(node.typ, PolymorphicFunctionInstanceType)
                 ):
                     self.types.setdefault(node.id, node.typ)
 
-- 
2.43.0


From ff98403c787dc4a596326cca3f4b6a1b8bb9ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 35/55] fix: constant folding evaluates only what is the same
 in every process

---
 opshin/optimize/optimize_const_folding.py | 35 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 4abd8a0..169d015 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -1,3 +1,4 @@
+import builtins
 import typing
 from collections import defaultdict
 import logging
@@ -39,23 +40,17 @@ SAFE_GLOBALS_LIST = [
     callable,
     chr,
     classmethod,
-    compile,
     complex,
     delattr,
     dict,
-    dir,
     divmod,
     enumerate,
     filter,
     float,
     format,
-    frozenset,
     getattr,
     hasattr,
-    hash,
     hex,
-    id,
-    input,
     int,
     isinstance,
     issubclass,
@@ -66,9 +61,7 @@ SAFE_GLOBALS_LIST = [
     max,
     min,
     next,
-    object,
     oct,
-    open,
     ord,
     pow,
     print,
@@ -77,7 +70,6 @@ SAFE_GLOBALS_LIST = [
     repr,
     reversed,
     round,
-    set,
     setattr,
     slice,
     sorted,
@@ -87,10 +79,26 @@ SAFE_GLOBALS_LIST = [
     super,
     tuple,
     type,
-    vars,
     zip,
 ]
 SAFE_GLOBALS = {x.__name__: x for x in SAFE_GLOBALS_LIST}
+# what is implicitly needed to execute class definitions and imports
+IMPLICIT_BUILTINS = {
+    x: getattr(builtins, x) for x in ("__build_class__", "__import__", "__name__")
+}
+
+
+def is_reproducible(node: AST) -> bool:
+    """Whether the value of the node is the same whenever and wherever it is evaluated"""
+    for n in walk(node):
+        # the order of the elements of sets depends on the process
+        if isinstance(n, (Set, SetComp)):
+            return False
+        if isinstance(n, Name) and n.id.startswith("__"):
+            return False
+        if isinstance(n, Attribute) and n.attr.startswith("__"):
+            return False
+    return True
 
 
 class ShallowNameDefCollector(CompilingNodeVisitor):
@@ -216,9 +224,12 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             k: (v if k not in overwritten_vars else err)
             for k, v in SAFE_GLOBALS.items()
         }
+        non_overwritten_globals["__builtins__"] = IMPLICIT_BUILTINS
         return non_overwritten_globals
 
     def update_constants(self, node):
+        if not is_reproducible(node):
+            return
         a = self._non_overwritten_globals()
         a.update(self._constant_vars())
         g = a
@@ -250,7 +261,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
 
     def visit_FunctionDef(self, node: FunctionDef) -> FunctionDef:
         self.add_var_visible(node.name)
-        if node.name in self.constants:
+        if node.name in self.constants and is_reproducible(node):
             a = self._non_overwritten_globals()
             a.update(self._constant_vars())
             g = a
@@ -338,6 +349,8 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         if isinstance(node, Constant):
             # prevents unnecessary computations
             return node
+        if not is_reproducible(node):
+            return node
         try:
             node_source = unparse(node)
         except Exception as e:
-- 
2.43.0


From 626d5330f6a17a8d6cc29b44f77f06f62d31ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 36/55] fix: messages are not printed when folding constants

---
 opshin/optimize/optimize_const_folding.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 169d015..0235c7b 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -224,6 +224,13 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             k: (v if k not in overwritten_vars else err)
             for k, v in SAFE_GLOBALS.items()
         }
+
+        def print(*args, **kwargs):
+            raise ValueError("Messages are printed when the contract is executed")
+
+        # functions that print must not be evaluated during compilation
+        if "print" not in overwritten_vars:
+            non_overwritten_globals["print"] = print
         non_overwritten_globals["__builtins__"] = IMPLICIT_BUILTINS
         return non_overwritten_globals
 
-- 
2.43.0


From ce2e9e972a358847d6c59f5b7dc177480d902777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 37/55] fix: constant lists of mixed elements and pairs of
 dicts are converted to PlutusData

---
 opshin/compiler.py   | 10 +++++++++-
 opshin/type_impls.py | 10 ++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index b41871a..62853ca 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -38,7 +38,11 @@ from .type_impls import (
     OUnit,
     UnitInstanceType,
 )
-from .type_inference import map_to_orig_name, AggressiveTypeInferencer
+from .type_inference import (
+    map_to_orig_name,
+    constant_type,
+    AggressiveTypeInferencer,
+)
 from .typed_ast import *
 
 from .compiler_config import DEFAULT_CONFIG
@@ -211,6 +215,10 @@ def rec_constant_map(c):
     if isinstance(c, str):
         return uplc.BuiltinString(c)
     if isinstance(c, list):
+        element_typ = constant_type(c).typ.typ.typ
+        if isinstance(element_typ, (UnionType, AnyType)):
+            # the elements are of different types, they are represented as PlutusData
+            return uplc.BuiltinList([rec_constant_map_data(ce) for ce in c])
         return uplc.BuiltinList([rec_constant_map(ce) for ce in c])
     if isinstance(c, dict):
         return uplc.BuiltinList(
diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 450c085..81f30bd 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3599,6 +3599,16 @@ def transform_output_map(p: Type):
         # there doesn't appear to be a constructor function to make Pair a b for any types
         # so pairs will always contain Data
         return lambda x: plt.MapData(x)
+    if isinstance(p.typ, PairType):
+        return lambda x: OLet(
+            [("pair", x)],
+            plt.ListData(
+                plt.MkCons(
+                    plt.FstPair(OVar("pair")),
+                    plt.MkCons(plt.SndPair(OVar("pair")), plt.EmptyDataList()),
+                )
+            ),
+        )
     return lambda x: x
 
 
-- 
2.43.0


From 0a8e9fcbfad357ec569bd82a6de4830a891980f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 38/55] fix: polymorphic builtins can be named without being
 called

---
 opshin/compiler.py   | 6 ++++++
 opshin/type_impls.py | 6 ++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 62853ca..b6377f0 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -25,6 +25,7 @@ from .type_impls import (
     strip_data_instance_type,
     ClassType,
     PolymorphicFunctionInstanceType,
+    PolymorphicFunctionType,
     ListType,
     TupleType,
     PairType,
@@ -711,6 +712,11 @@ class PlutoCompiler(CompilingNodeTransformer):
         if isinstance(node.typ, ClassType):
             # if this is not an instance but a class, call the constructor
             return node.typ.constr()
+        if isinstance(node.typ, InstanceType) and isinstance(
+            node.typ.typ, PolymorphicFunctionType
+        ):
+            # polymorphic functions are implemented at the call site
+            return plt.Unit()
         if isinstance(node.typ, DataInstanceType):
             return transform_ext_params_map(node.typ)(plt.Force(plt.Var(node.id)))
         return plt.Force(plt.Var(node.id))
diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 81f30bd..1b59c6b 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -2624,9 +2624,7 @@ class ByteStringType(AtomicType):
                             "quote",
                             plt.Ite(
                                 plt.And(
-                                    plt.Apply(
-                                        OVar("contains"), plt.Integer(ord("'"))
-                                    ),
+                                    plt.Apply(OVar("contains"), plt.Integer(ord("'"))),
                                     plt.Not(
                                         plt.Apply(
                                             OVar("contains"), plt.Integer(ord('"'))
@@ -3579,7 +3577,7 @@ def transform_output_map(p: Type):
     assert isinstance(
         p, InstanceType
     ), "Can only transform instances, not classes as input"
-    if isinstance(p.typ, FunctionType) or isinstance(p.typ, PolymorphicFunction):
+    if isinstance(p.typ, (FunctionType, PolymorphicFunctionType)):
         raise NotImplementedError(
             "Can not map functions into PlutusData and hence not return them from a function as Anything"
         )
-- 
2.43.0


From ab63e34abe66844d3787565fa7f33b662198595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 39/55] fix: expressions that read names which may be unbound
 are not removed

---
 .../optimize/optimize_remove_deadconstants.py | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/opshin/optimize/optimize_remove_deadconstants.py b/opshin/optimize/optimize_remove_deadconstants.py
index 1dc31ad..03b070c 100644
--- a/opshin/optimize/optimize_remove_deadconstants.py
+++ b/opshin/optimize/optimize_remove_deadconstants.py
@@ -39,9 +39,11 @@ class SafeOperationVisitor(CompilingNodeVisitor):
 class OptimizeRemoveDeadConstants(CompilingNodeTransformer):
     step = "Removing dead expressions"
 
-    guaranteed_avail_names = [
-        list(INITIAL_SCOPE.keys()) + ["isinstance", "Union", "Dict", "List"]
-    ]
+    def __init__(self):
+        self.guaranteed_avail_names = [
+            list(INITIAL_SCOPE.keys()) + ["isinstance", "Union", "Dict", "List"]
+        ]
+        super().__init__()
 
     def enter_scope(self):
         self.guaranteed_avail_names.append([])
@@ -72,6 +74,32 @@ class OptimizeRemoveDeadConstants(CompilingNodeTransformer):
             return None
         return node
 
+    def visit_branch(self, stmts):
+        """visit statements that may not be executed, returns them and the names that they define"""
+        self.enter_scope()
+        res = self.visit_stmts(stmts)
+        names = self.guaranteed_avail_names[-1]
+        self.exit_scope()
+        return res, names
+
+    def visit_If(self, node: If):
+        node_cp = copy(node)
+        node_cp.body, body_names = self.visit_branch(node.body)
+        node_cp.orelse, orelse_names = self.visit_branch(node.orelse)
+        for name in body_names:
+            if name in orelse_names:
+                self.set_guaranteed(name)
+        return node_cp
+
+    def visit_loop(self, node):
+        node_cp = copy(node)
+        node_cp.body, _ = self.visit_branch(node.body)
+        node_cp.orelse, _ = self.visit_branch(node.orelse)
+        return node_cp
+
+    visit_While = visit_loop
+    visit_For = visit_loop
+
     def visit_FunctionDef(self, node: FunctionDef):
         node_cp = copy(node)
         self.set_guaranteed(node.name)
-- 
2.43.0


From 1dd6b0c4cd3bbc89ba0de6dcace4719d1f2a0900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 40/55] fix: contract arguments on the command line are parsed
 according to their types

---
 opshin/__main__.py | 136 +++++++++++++++++++++++++++++++--------------
 1 file changed, 93 insertions(+), 43 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 1402433..be9bed6 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -81,7 +81,7 @@ def parse_plutus_param(annotation, param: str):
                 raise ValueError(
                     f"Invalid parameter for contract passed, expected json value, got {param}"
                 ) from e
-            return plutus_data_from_json(annotation, param_dict)
+            res = plutus_data_from_json(annotation, param_dict)
         else:
             try:
                 param_bytes = bytes.fromhex(param)
@@ -89,65 +89,92 @@ def parse_plutus_param(annotation, param: str):
                 raise ValueError(
                     "Expected hexadecimal CBOR representation of plutus datum but could not transform hex string to bytes."
                 ) from e
-            return plutus_data_from_cbor(annotation, param_bytes)
+            res = plutus_data_from_cbor(annotation, param_bytes)
+        return res
     except ValueError as e:
         raise ValueError(
             f"Could not parse parameter {param} as type {annotation}. Please provide the parameter either as JSON or CBOR (in hexadecimal notation). Detailed error: {e}"
         ) from e
 
 
+NONE_JSON = {"constructor": 0, "fields": []}
+
+
+def matching(annotation, value):
+    """Refuse None where the annotation calls for another value"""
+    if value is None and annotation not in (None, type(None)):
+        raise ValueError(f"{annotation} does not match provided plutus datum")
+    return value
+
+
+def json_from_cbor(x: bytes):
+    return uplc.ast.data_from_cbor(x).to_json()
+
+
 def plutus_data_from_json(annotation: typing.Type, x: dict):
     try:
         if annotation == int:
             return int(x["int"])
         if annotation == bytes:
             return bytes.fromhex(x["bytes"])
-        if annotation is None:
+        if annotation == bool and x.get("int") in (0, 1):
+            return bool(x["int"])
+        if annotation == str and "bytes" in x:
+            return bytes.fromhex(x["bytes"]).decode("utf8")
+        if annotation is None or annotation is type(None):
+            if x not in ({}, NONE_JSON):
+                raise ValueError(f"Expected None but got {json.dumps(x)}")
             return None
+        if annotation == pycardano.Datum:
+            if "int" in x:
+                return int(x["int"])
+            if "bytes" in x:
+                return bytes.fromhex(x["bytes"])
+            if "constructor" in x:
+                return pycardano.RawCBOR(
+                    uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
+                )
+            if "list" in x:
+                return [plutus_data_from_json(pycardano.Datum, k) for k in x["list"]]
+            if "map" in x:
+                return {
+                    plutus_data_from_json(
+                        pycardano.Datum, d["k"]
+                    ): plutus_data_from_json(pycardano.Datum, d["v"])
+                    for d in x["map"]
+                }
+            raise ValueError(f"Expected plutus datum but got {json.dumps(x)}")
         if isinstance(annotation, typing._GenericAlias):
             # Annotation is a List or Dict
             if annotation._name == "List":
                 annotation_ann = annotation.__dict__["__args__"][0]
-                return [plutus_data_from_json(annotation_ann, k) for k in x["list"]]
+                return [
+                    matching(annotation_ann, plutus_data_from_json(annotation_ann, k))
+                    for k in x["list"]
+                ]
             if annotation._name == "Dict":
                 annotation_key, annotation_val = annotation.__dict__["__args__"]
                 return {
-                    plutus_data_from_json(
-                        annotation_key, d["k"]
-                    ): plutus_data_from_json(annotation_val, d["v"])
+                    matching(
+                        annotation_key, plutus_data_from_json(annotation_key, d["k"])
+                    ): matching(
+                        annotation_val, plutus_data_from_json(annotation_val, d["v"])
+                    )
                     for d in x["map"]
                 }
             if annotation.__origin__ == typing.Union:
                 for ann in annotation.__dict__["__args__"]:
                     try:
-                        return plutus_data_from_json(ann, x)
+                        return matching(ann, plutus_data_from_json(ann, x))
                     except (pycardano.DeserializeException, KeyError, ValueError):
                         pass
                 raise ValueError(
                     f"Could not find matching type for {x} in {annotation}"
                 )
-            if annotation == pycardano.Datum:
-                if "int" in x:
-                    return int(x["int"])
-                if "bytes" in x:
-                    return bytes.fromhex(x["bytes"])
-                if "constructor" in x:
-                    return pycardano.RawCBOR(
-                        uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
-                    )
-                if "list" in x:
-                    return [
-                        plutus_data_from_json(pycardano.Datum, k) for k in x["list"]
-                    ]
-                if "map" in x:
-                    return {
-                        plutus_data_from_json(
-                            pycardano.Datum, d["k"]
-                        ): plutus_data_from_json(pycardano.Datum, d["v"])
-                        for d in x["map"]
-                    }
         if issubclass(annotation, pycardano.PlutusData):
-            return annotation.from_dict(x)
+            return annotation.from_cbor(
+                uplc.ast.plutus_cbor_dumps(uplc.ast.data_from_json_dict(x))
+            )
     except (KeyError, ValueError, pycardano.DeserializeException):
         raise ValueError(
             f"Annotation {annotation} does not match provided plutus datum {json.dumps(x)}"
@@ -158,35 +185,52 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
     try:
         if annotation in (int, bytes):
             res = cbor2.loads(x)
-            if not isinstance(res, annotation):
+            if not isinstance(res, annotation) or isinstance(res, bool):
                 raise ValueError(
-                    f"Expected {annotation} but got {type(x)} from {x.hex()}"
+                    f"Expected {annotation} but got {type(res)} from {x.hex()}"
                 )
             return res
-        if annotation is None:
-            if not x == cbor2.dumps(None):
+        if annotation in (bool, str):
+            return plutus_data_from_json(annotation, json_from_cbor(x))
+        if annotation is None or annotation is type(None):
+            if x != cbor2.dumps(None) and json_from_cbor(x) != NONE_JSON:
                 raise ValueError(f"Expected None but got {x.hex()}")
             return None
+        if annotation == pycardano.Datum:
+            return plutus_data_from_json(annotation, json_from_cbor(x))
         if isinstance(annotation, typing._GenericAlias):
             # Annotation is a List or Dict
             if annotation.__origin__ == list:
                 annotation_ann = annotation.__dict__["__args__"][0]
+                res = cbor2.loads(x)
+                if not isinstance(res, list):
+                    raise ValueError(f"Expected {annotation} but got {x.hex()}")
                 return [
-                    plutus_data_from_cbor(annotation_ann, cbor2.dumps(k))
-                    for k in cbor2.loads(x)
+                    matching(
+                        annotation_ann,
+                        plutus_data_from_cbor(annotation_ann, cbor2.dumps(k)),
+                    )
+                    for k in res
                 ]
             if annotation.__origin__ == dict:
                 annotation_key, annotation_val = annotation.__dict__["__args__"]
+                res = cbor2.loads(x)
+                if not isinstance(res, dict):
+                    raise ValueError(f"Expected {annotation} but got {x.hex()}")
                 return {
-                    plutus_data_from_cbor(
-                        annotation_key, cbor2.dumps(k)
-                    ): plutus_data_from_cbor(annotation_val, cbor2.dumps(v))
-                    for k, v in cbor2.loads(x).items()
+                    matching(
+                        annotation_key,
+                        plutus_data_from_cbor(annotation_key, cbor2.dumps(k)),
+                    ): matching(
+                        annotation_val,
+                        plutus_data_from_cbor(annotation_val, cbor2.dumps(v)),
+                    )
+                    for k, v in res.items()
                 }
             if annotation.__origin__ == typing.Union:
                 for ann in annotation.__dict__["__args__"]:
                     try:
-                        return plutus_data_from_cbor(ann, x)
+                        return matching(ann, plutus_data_from_cbor(ann, x))
                     except (pycardano.DeserializeException, ValueError):
                         pass
                 raise ValueError(
@@ -286,7 +330,11 @@ def perform_command(args):
             f"Contract has no function called '{'validator' if lib is None else lib}'. Make sure the compiled contract contains one function called 'validator'."
         )
     annotations = [
-        (x.name, x.annotation or prelude.Anything) for x in argspec.parameters.values()
+        (
+            x.name,
+            x.annotation if x.annotation is not x.empty else prelude.Anything,
+        )
+        for x in argspec.parameters.values()
     ]
     return_annotation = (
         argspec.return_annotation
@@ -304,7 +352,7 @@ def perform_command(args):
             ) from None
         uplc_params.append(uplc_param)
         try:
-            param = parse_plutus_param(c[1], a)
+            param = matching(c[1], parse_plutus_param(c[1], a))
         except ValueError as e:
             raise ValueError(
                 f"Could not parse parameter {i} ('{a}') as type {c[1]}. Please provide the parameter either as JSON or CBOR (in hexadecimal notation). Detailed error: {e}"
@@ -327,7 +375,9 @@ def perform_command(args):
         print("Python execution started")
         with redirect_stdout(open(os.devnull, "w")):
             try:
-                py_ret = sc.validator(*parsed_params)
+                py_ret = getattr(sc, "validator" if lib is None else lib)(
+                    *parsed_params
+                )
             except Exception as e:
                 py_ret = e
         command = Command.eval_uplc
-- 
2.43.0


From b8db5df785b01e53c1800e3300a718051e9cff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 41/55] fix: opshin eval --lib runs the named function and
 compile prints only the script

---
 opshin/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index be9bed6..3a936fd 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -256,7 +256,8 @@ def check_params(
     param_types = validator_args[:-num_onchain_params]
     if return_type is not None:
         print(
-            f"Warning: validator returns {return_type}, but it is recommended to return None. In PlutusV3, validators that do not return None always fail. This is most likely not what you want."
+            f"Warning: validator returns {return_type}, but it is recommended to return None. In PlutusV3, validators that do not return None always fail. This is most likely not what you want.",
+            file=sys.stderr,
         )
 
     required_onchain_parameters = 1
@@ -321,7 +322,8 @@ def perform_command(args):
             raise SyntaxError(
                 f"Could not import the input file as python module. Make sure the input file is valid python code. Error: {e}",
             ) from e
-        sys.path.pop()
+        finally:
+            sys.path.pop()
     # load the passed parameters if not a lib
     try:
         argspec = inspect.signature(sc.validator if lib is None else getattr(sc, lib))
-- 
2.43.0


From 7b7fec5c8e63f2387f4da94dafc56cf95810b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:37 +0000
Subject: [PATCH 42/55] fix: the names in a printed script can be parsed again

---
 opshin/compiler.py       | 2 +-
 opshin/type_inference.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index b6377f0..1e3f0e6 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -726,7 +726,7 @@ class PlutoCompiler(CompilingNodeTransformer):
         # the expression is computed even though its value is eventually discarded
         # Note this really only makes sense for Trace
         # we use an invalid name here to avoid conflicts
-        return lambda x: plt.Apply(OLambda(["0"], x), self.visit(node.value))
+        return lambda x: plt.Apply(OLambda(["_"], x), self.visit(node.value))
 
     def visit_Call(self, node: TypedCall) -> plt.AST:
         # compiled_args = " ".join(f"({self.visit(a)} {STATEMONAD})" for a in node.args)
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index bfb2ffe..b026e14 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -306,7 +306,7 @@ ALL_DUNDERS = set(DUNDER_MAP.values()).union(set(DUNDER_REVERSE_MAP.values()))
 
 
 def method_name(class_name: str, method_attr: str) -> str:
-    return f"{class_name}_+_{method_attr}"
+    return f"{class_name}_'_{method_attr}"
 
 
 def record_from_plutusdata(c: PlutusData):
@@ -957,7 +957,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 called_self_methods = SelfMethodCallCollector()
                 called_self_methods.visit(attribute)
                 func.self_called_method_names = {
-                    f"{n.name}_+_{method_name}"
+                    f"{n.name}_'_{method_name}"
                     for method_name in called_self_methods.called
                 }
                 lowered_node_seq.append(func)
-- 
2.43.0


From ac60cc5e1fc476949f051f8442395ca571306409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:36 +0000
Subject: [PATCH 43/55] fix: constant folding mistook variables named like a
 builtin for a function

---
 opshin/optimize/optimize_const_folding.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 0235c7b..6ebc552 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -217,12 +217,8 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
     def _non_overwritten_globals(self):
         overwritten_vars = self.visible_vars()
 
-        def err():
-            raise ValueError("Was overwritten!")
-
         non_overwritten_globals = {
-            k: (v if k not in overwritten_vars else err)
-            for k, v in SAFE_GLOBALS.items()
+            k: v for k, v in SAFE_GLOBALS.items() if k not in overwritten_vars
         }
 
         def print(*args, **kwargs):
-- 
2.43.0


From 85a713b7ebdf99b360c38ae04f0e57e97eb73dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 44/55] fix: unions of unions keep all their members

---
 opshin/type_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index b026e14..86f760c 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -379,7 +379,7 @@ def union_types(*ts: Type):
     while to_process:
         t = to_process.pop()
         if isinstance(t, UnionType):
-            to_process = to_process.extend(reversed(t.typs))
+            to_process.extend(reversed(t.typs))
         else:
             assert isinstance(
                 t, (RecordType, IntegerType, ByteStringType, ListType, DictType)
-- 
2.43.0


From 30f3a9c83427e8d5e4716bdfe1f0b51333d15fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 45/55] fix: conditional expressions convert both branches to
 the common type

---
 opshin/compiler.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 1e3f0e6..7249851 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1376,18 +1376,11 @@ class PlutoCompiler(CompilingNodeTransformer):
         )
 
     def visit_IfExp(self, node: TypedIfExp) -> plt.AST:
-        if isinstance(node.typ.typ, UnionType):
-            body = self.visit(node.body)
-            orelse = self.visit(node.orelse)
-            if not isinstance(node.body.typ, UnionType):
-                body = transform_output_map(node.body.typ)(body)
-            if not isinstance(node.orelse.typ, UnionType):
-                orelse = transform_output_map(node.orelse.typ)(orelse)
-            return plt.Ite(self.visit(node.test), body, orelse)
         body, orelse = (
             (
                 transform_output_to_type(o.typ, node.typ)(self.visit(o))
-                if isinstance(node.typ.typ, ListType) and o.typ != node.typ
+                if isinstance(node.typ.typ, (AnyType, UnionType, ListType))
+                and o.typ != node.typ
                 else self.visit(o)
             )
             for o in (node.body, node.orelse)
-- 
2.43.0


From f42aa00793349bd1b6a5ea4c93978f207dd465be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 46/55] fix: casts of lists to lists of narrower elements
 convert the elements

---
 opshin/compiler.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 7249851..5cf16ae 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -131,7 +131,7 @@ def transform_output_to_type(source: Type, target: Type):
     if isinstance(target.typ, (AnyType, UnionType)):
         return transform_output_map(source)
     if isinstance(target.typ, ListType) and isinstance(source.typ, ListType):
-        if not needs_data_cast(target.typ.typ):
+        if not needs_data_cast(target.typ.typ) and not needs_data_cast(source.typ.typ):
             return lambda x: x
         return lambda x: plt.MapList(
             x,
@@ -173,6 +173,9 @@ def transform_output_to_type(source: Type, target: Type):
             ),
             plt.EmptyDataPairList(),
         )
+    if isinstance(source.typ, (AnyType, UnionType)):
+        # a cast to a more specific type
+        return transform_ext_params_map(target)
     return lambda x: x
 
 
@@ -686,16 +689,9 @@ class PlutoCompiler(CompilingNodeTransformer):
             node.target.typ, InstanceType
         ), "Can only assign instances to instances"
         val = self.visit(node.value)
-        if isinstance(node.value.typ, InstanceType) and (
-            isinstance(node.value.typ.typ, AnyType)
-            or isinstance(node.value.typ.typ, UnionType)
-        ):
-            # we need to map this as it will originate from PlutusData
-            # AnyType is the only type other than the builtin itself that can be cast to builtin values
-            val = transform_ext_params_map(node.target.typ)(val)
-        if needs_data_cast(node.target.typ):
-            # we need to map this back as it will be treated as PlutusData
-            # AnyType is the only type other than the builtin itself that can be cast to from builtin values
+        if needs_data_cast(node.target.typ) or needs_data_cast(node.value.typ):
+            # values of AnyType and UnionType are PlutusData and need to be mapped
+            # when they are cast to and from builtin values
             val = transform_output_to_type(node.value.typ, node.target.typ)(val)
         return lambda x: plt.Let(
             [
-- 
2.43.0


From e6528aa0a50a6fbce1b7016a624c5cc64c85b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:48 +0000
Subject: [PATCH 47/55] fix: instances of different classes are not accepted in
 place of each other

---
 opshin/type_impls.py     | 41 ++++++++++++++++++++++++++++++++--------
 opshin/type_inference.py |  2 +-
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 1b59c6b..2afbbd3 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -233,7 +233,10 @@ class Record:
         return (
             self.constructor == other.constructor
             and len(self.fields) == len(other.fields)
-            and all(a >= b for a, b in zip(self.fields, other.fields))
+            and all(
+                a_name == b_name and a_type >= b_type
+                for (a_name, a_type), (b_name, b_type) in zip(self.fields, other.fields)
+            )
         )
 
 
@@ -623,10 +626,14 @@ class RecordType(ClassType):
         if (
             (
                 isinstance(o, RecordType)
-                and (self.record >= o.record or o.record >= self.record)
+                and (
+                    InstanceType(self) >= InstanceType(o)
+                    or InstanceType(o) >= InstanceType(self)
+                )
             )
             or (
-                isinstance(o, UnionType) and any(self >= o or self >= o for o in o.typs)
+                isinstance(o, UnionType)
+                and any(InstanceType(self) >= InstanceType(o) for o in o.typs)
             )
             or isinstance(o, AnyType)
         ):
@@ -647,7 +654,7 @@ class RecordType(ClassType):
         if (
             isinstance(o, ListType)
             and isinstance(o.typ, InstanceType)
-            and (o.typ.typ >= self or self >= o.typ.typ)
+            and (o.typ >= InstanceType(self) or InstanceType(self) >= o.typ)
         ):
             if isinstance(op, ast.In):
                 return OLambda(
@@ -875,15 +882,23 @@ class UnionType(ClassType):
     def __ge__(self, other):
         if isinstance(other, UnionType):
             return all(self >= ot for ot in other.typs)
-        return any(t >= other for t in self.typs)
+        return any(InstanceType(t) >= InstanceType(other) for t in self.typs)
 
     def cmp(self, op: ast.cmpop, o: "Type") -> plt.AST:
         """The implementation of comparing this type to type o via operator op. Returns a lambda that expects as first argument the object itself and as second the comparison."""
         # this will reject comparisons that will always be false - most likely due to faults during programming
         # note we require that there is an overlapt between the possible types for unions
-        if (isinstance(o, RecordType) and any(t >= o or o >= t for t in self.typs)) or (
+        if (
+            isinstance(o, RecordType)
+            and any(
+                InstanceType(t) >= InstanceType(o) or InstanceType(o) >= InstanceType(t)
+                for t in self.typs
+            )
+        ) or (
             isinstance(o, UnionType)
-            and any(t >= ot or t >= ot for t in self.typs for ot in o.typs)
+            and any(
+                InstanceType(t) >= InstanceType(ot) for t in self.typs for ot in o.typs
+            )
         ):
             if isinstance(op, ast.Eq):
                 return plt.BuiltIn(uplc.BuiltInFun.EqualsData)
@@ -901,7 +916,9 @@ class UnionType(ClassType):
         if (
             isinstance(o, ListType)
             and isinstance(o.typ, InstanceType)
-            and any(o.typ.typ >= t or t >= o.typ.typ for t in self.typs)
+            and any(
+                o.typ >= InstanceType(t) or InstanceType(t) >= o.typ for t in self.typs
+            )
         ):
             if isinstance(op, ast.In):
                 return OLambda(
@@ -1754,6 +1771,14 @@ class InstanceType(Type):
         return super().cmp(op, o)
 
     def __ge__(self, other):
+        if (
+            isinstance(other, InstanceType)
+            and isinstance(self.typ, RecordType)
+            and isinstance(other.typ, RecordType)
+            and self.typ.record.orig_name != other.typ.record.orig_name
+        ):
+            # an instance of a class is not an instance of other classes, even if their fields agree
+            return False
         return isinstance(other, InstanceType) and self.typ >= other.typ
 
     def stringify(self, recursive: bool = False) -> plt.AST:
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 86f760c..b68d08e 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -370,7 +370,7 @@ def union_types(*ts: Type):
         return ts[0]
     # If there is a type that is compatible with all other types, choose the maximum
     for t in ts:
-        if all(t >= tp for tp in ts):
+        if all(InstanceType(t) >= InstanceType(tp) for tp in ts):
             return t
     assert ts, "Union must combine multiple classes"
     # flatten encountered union types
-- 
2.43.0


From 8a3d55ee91eafc81e0304aec8e3b9a1c7fdf60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:48 +0000
Subject: [PATCH 48/55] fix: constants of classes have the declared type of the
 class after constant folding

---
 opshin/compiler.py       | 13 ++++----
 opshin/type_inference.py | 70 ++++++++++++++++++++++++++++++++++++----
 2 files changed, 71 insertions(+), 12 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 5cf16ae..175963c 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -41,7 +41,6 @@ from .type_impls import (
 )
 from .type_inference import (
     map_to_orig_name,
-    constant_type,
     AggressiveTypeInferencer,
 )
 from .typed_ast import *
@@ -207,7 +206,7 @@ def rec_constant_map_data(c):
     raise NotImplementedError(f"Unsupported constant type {type(c)}")
 
 
-def rec_constant_map(c):
+def rec_constant_map(c, typ: Type):
     if isinstance(c, bool):
         return uplc.BuiltinBool(c)
     if isinstance(c, int):
@@ -219,11 +218,11 @@ def rec_constant_map(c):
     if isinstance(c, str):
         return uplc.BuiltinString(c)
     if isinstance(c, list):
-        element_typ = constant_type(c).typ.typ.typ
-        if isinstance(element_typ, (UnionType, AnyType)):
+        element_typ = typ.typ.typ
+        if isinstance(element_typ.typ, (UnionType, AnyType)):
             # the elements are of different types, they are represented as PlutusData
             return uplc.BuiltinList([rec_constant_map_data(ce) for ce in c])
-        return uplc.BuiltinList([rec_constant_map(ce) for ce in c])
+        return uplc.BuiltinList([rec_constant_map(ce, element_typ) for ce in c])
     if isinstance(c, dict):
         return uplc.BuiltinList(
             [
@@ -653,7 +652,9 @@ class PlutoCompiler(CompilingNodeTransformer):
                 OPSHIN_LOGGER.warning(
                     f"The string {node.value} looks like it is supposed to be a hex-encoded bytestring but is actually utf8-encoded. Try using `bytes.fromhex('{node.value.decode()}')` instead."
                 )
-        plt_val = plt.UPLCConstant(rec_constant_map(node.value))
+        plt_val = plt.UPLCConstant(
+            rec_constant_map(node.value, getattr(node, "typ", None))
+        )
         return plt_val
 
     def visit_NoneType(self, _: typing.Optional[typing.Any]) -> plt.AST:
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index b68d08e..2be3824 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -318,7 +318,55 @@ def record_from_plutusdata(c: PlutusData):
     )
 
 
-def constant_type(c):
+def constant_has_type(c, typ: Type, records: typing.Iterable[Record] = ()) -> bool:
+    """Whether the constant is a valid instance of the (declared) type"""
+    if not isinstance(typ, InstanceType):
+        return False
+    typ = typ.typ
+    if isinstance(typ, AnyType):
+        return True
+    if isinstance(typ, UnionType):
+        return any(constant_has_type(c, InstanceType(t), records) for t in typ.typs)
+    if isinstance(typ, ListType):
+        return isinstance(c, list) and all(
+            constant_has_type(x, typ.typ, records) for x in c
+        )
+    if isinstance(typ, DictType):
+        return isinstance(c, dict) and all(
+            constant_has_type(k, typ.key_typ, records)
+            and constant_has_type(v, typ.value_typ, records)
+            for k, v in c.items()
+        )
+    if isinstance(typ, RecordType):
+        return isinstance(c, PlutusData) and declared_record(c, records) == typ.record
+    if isinstance(c, (list, dict, PlutusData)):
+        return False
+    return constant_type(c) == InstanceType(typ)
+
+
+def declared_record(
+    c: PlutusData, records: typing.Iterable[Record]
+) -> typing.Optional[Record]:
+    """Find the declaration of the class of an instance that was created during constant folding"""
+    for record in records:
+        if (
+            record.orig_name == c.__class__.__name__
+            and record.constructor == c.CONSTR_ID
+            and [name for name, _ in record.fields] == list(c.__dict__)
+            and all(
+                constant_has_type(c.__dict__[name], typ, records)
+                for name, typ in record.fields
+            )
+        ):
+            return record
+    return None
+
+
+def constant_type(c, records: typing.Iterable[Record] = ()):
+    """
+    Determine the type of a constant
+    Instances of the classes described by records have the type of the class, as declared
+    """
     if isinstance(c, bool):
         return BoolInstanceType
     if isinstance(c, int):
@@ -331,7 +379,7 @@ def constant_type(c):
         return StringInstanceType
     if isinstance(c, list):
         assert len(c) > 0, "Lists must be non-empty"
-        types = [constant_type(x) for x in c]
+        types = [constant_type(x, records) for x in c]
         first_typ = find_max_type([InstanceType(t) for t in types])
         if first_typ is None:
             raise ValueError(
@@ -341,8 +389,8 @@ def constant_type(c):
     if isinstance(c, dict):
         assert len(c) > 0, "Dicts must be non-empty"
 
-        key_types = [constant_type(k) for k in c.keys()]
-        value_types = [constant_type(v) for v in c.values()]
+        key_types = [constant_type(k, records) for k in c.keys()]
+        value_types = [constant_type(v, records) for v in c.values()]
         first_key_typ = find_max_type([InstanceType(t) for t in key_types])
         first_value_typ = find_max_type([InstanceType(t) for t in value_types])
         if first_key_typ is None:
@@ -355,7 +403,8 @@ def constant_type(c):
             )
         return InstanceType(DictType(first_key_typ, first_value_typ))
     if isinstance(c, PlutusData):
-        return InstanceType(RecordType(record=record_from_plutusdata(c)))
+        record = declared_record(c, records) or record_from_plutusdata(c)
+        return InstanceType(RecordType(record=record))
     raise NotImplementedError(f"Type {type(c)} not supported")
 
 
@@ -1040,7 +1089,16 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             complex,
             type(...),
         ], "Float, complex numbers and ellipsis currently not supported"
-        tc.typ = constant_type(node.value)
+        # instances of classes stem from constant folding
+        tc.typ = constant_type(
+            node.value,
+            [
+                value.record
+                for scope in reversed(self.scopes)
+                for value in scope.values()
+                if isinstance(value, RecordType)
+            ],
+        )
         return tc
 
     def visit_NoneType(self, node: None) -> TypedConstant:
-- 
2.43.0


From 528a9bc1e7a761cae04ecb0d7efc95464dea840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 49/55] fix: error messages do not contain addresses and sets
 in arbitrary order

---
 opshin/rewrite/rewrite_import_plutusdata.py | 8 ++++----
 opshin/rewrite/rewrite_import_typing.py     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/opshin/rewrite/rewrite_import_plutusdata.py b/opshin/rewrite/rewrite_import_plutusdata.py
index 47298ab..a7f71ce 100644
--- a/opshin/rewrite/rewrite_import_plutusdata.py
+++ b/opshin/rewrite/rewrite_import_plutusdata.py
@@ -37,17 +37,17 @@ class RewriteImportPlutusData(CompilingNodeTransformer):
     def visit_ClassDef(self, node: ClassDef) -> ClassDef:
         assert (
             len(node.decorator_list) == 1
-        ), f"Class definitions must have no decorators but @dataclass, {node.name} has {tuple(node.decorator_list)}"
+        ), f"Class definitions must have no decorators but @dataclass, {node.name} has ({', '.join(map(unparse, node.decorator_list))})"
         assert (
             len(node.bases) == 1
-        ), f"Class definitions must inherit exactly from PlutusData (i.e., `class {node.name}(PlutusData)`), {node.name} inherits from {tuple(node.bases)}"
+        ), f"Class definitions must inherit exactly from PlutusData (i.e., `class {node.name}(PlutusData)`), {node.name} inherits from ({', '.join(map(unparse, node.bases))})"
         assert isinstance(
             node.bases[0], Name
-        ), f"The inheritance must be direct, using the name PlutusData (i.e., `class {node.name}(PlutusData)`), {node.name} uses {node.bases}"
+        ), f"The inheritance must be direct, using the name PlutusData (i.e., `class {node.name}(PlutusData)`), {node.name} uses {unparse(node.bases[0])}"
         base: Name = node.bases[0]
         assert (
             base.id == "PlutusData"
-        ), f"Class definitions must inherit from PlutusData, {node.name} uses {base}"
+        ), f"Class definitions must inherit from PlutusData, {node.name} uses {base.id}"
         assert (
             self.imports_plutus_data
         ), "PlutusData must be imported in order to use datum classes"
diff --git a/opshin/rewrite/rewrite_import_typing.py b/opshin/rewrite/rewrite_import_typing.py
index eefcbaf..bfe572a 100644
--- a/opshin/rewrite/rewrite_import_typing.py
+++ b/opshin/rewrite/rewrite_import_typing.py
@@ -42,7 +42,7 @@ class RewriteImportTyping(CompilingNodeTransformer):
         for n in node.names:
             if n.name not in ALLOWED_TYPING_IMPORTS:
                 raise ValueError(
-                    f"Only the following imports from typing are allowed: {ALLOWED_TYPING_IMPORTS}, found {n.name}"
+                    f"Only the following imports from typing are allowed: {', '.join(sorted(ALLOWED_TYPING_IMPORTS))}, found {n.name}"
                 )
             if n.asname is not None:
                 raise ValueError("Imports from typing cannot be aliased")
-- 
2.43.0


From 25f779493501afc67e146b457fa1860b38366fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 50/55] fix: lint reports the position of errors in python and
 well formed warnings

---
 opshin/__main__.py | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 3a936fd..dd0fd15 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -14,6 +14,7 @@ import importlib
 import json
 import pathlib
 import sys
+import traceback
 import typing
 import ast
 
@@ -319,8 +320,24 @@ def perform_command(args):
             sc = importlib.import_module(pathlib.Path(tmp_input_file).stem)
         except Exception as e:
             # replace the traceback with an error pointing to the input file
+            line, column, message = 1, 0, str(e)
+            if isinstance(e, SyntaxError) and e.filename == str(tmp_input_file):
+                line, column = e.lineno or 1, max((e.offset or 1) - 1, 0)
+                message = e.msg
+            else:
+                # the innermost position in the input file
+                for frame, frame_line in traceback.walk_tb(e.__traceback__):
+                    if frame.f_code.co_filename == str(tmp_input_file):
+                        line = frame_line
+            source_lines = source_code.splitlines() or [""]
             raise SyntaxError(
-                f"Could not import the input file as python module. Make sure the input file is valid python code. Error: {e}",
+                f"Could not import the input file as python module. Make sure the input file is valid python code. Error: {message}",
+                (
+                    input_file,
+                    line,
+                    column,
+                    source_lines[min(line, len(source_lines)) - 1],
+                ),
             ) from e
         finally:
             sys.path.pop()
@@ -401,11 +418,11 @@ def perform_command(args):
     except CompilerError as c:
         # Generate nice error message from compiler error
         if not isinstance(c.node, ast.Module):
-            source_seg = ast.get_source_segment(source_code, c.node)
             start_line = c.node.lineno - 1
-            end_line = start_line + len(source_seg.splitlines())
+            end_line = c.node.end_lineno
             source_lines = "\n".join(source_code.splitlines()[start_line:end_line])
-            pos_in_line = source_lines.find(source_seg)
+            # the offset of the node is given in bytes
+            pos_in_line = len(source_lines.encode()[: c.node.col_offset].decode())
         else:
             start_line = 0
             pos_in_line = 0
@@ -629,11 +646,7 @@ def main():
     else:
         OPSHIN_LOG_HANDLER.stream = sys.stdout
         if args.output_format_json:
-            OPSHIN_LOG_HANDLER.setFormatter(
-                logging.Formatter(
-                    '{"line":%(lineno)d,"column":%(col_offset)d,"error_class":"%(levelname)s","message":"%(message)s"}'
-                )
-            )
+            OPSHIN_LOG_HANDLER.setFormatter(JSONLogFormatter())
         else:
             OPSHIN_LOG_HANDLER.setFormatter(
                 logging.Formatter(
@@ -671,6 +684,18 @@ def main():
                 )
 
 
+class JSONLogFormatter(logging.Formatter):
+    def format(self, record: logging.LogRecord) -> str:
+        return json.dumps(
+            {
+                "line": record.lineno,
+                "column": record.col_offset,
+                "error_class": record.levelname,
+                "message": record.getMessage(),
+            }
+        )
+
+
 def convert_linter_to_json(
     line: int,
     column: int,
-- 
2.43.0


From 56e3ae8b0452dbf53c85b8dfb79fbd50951ec49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 51/55] fix: declarations without a value are rejected with a
 message

---
 opshin/optimize/optimize_const_folding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 6ebc552..42f2668 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -336,7 +336,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
 
     def visit_AnnAssign(self, node: AnnAssign):
         target = node.target
-        if not isinstance(target, Name):
+        if not isinstance(target, Name) or node.value is None:
             return node
 
         if target.id in self.constants:
-- 
2.43.0


From 4559d95a64df25a153e109da0d21bfdffbe585b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:26 +0000
Subject: [PATCH 52/55] fix: errors in rewritten assignments and declarations
 are reported at their position

---
 opshin/rewrite/rewrite_augassign.py    |  2 +-
 opshin/rewrite/rewrite_tuple_assign.py | 18 ++++++++++++------
 opshin/type_inference.py               | 16 +++++++++++++++-
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/opshin/rewrite/rewrite_augassign.py b/opshin/rewrite/rewrite_augassign.py
index 8d0f69a..b844086 100644
--- a/opshin/rewrite/rewrite_augassign.py
+++ b/opshin/rewrite/rewrite_augassign.py
@@ -23,4 +23,4 @@ class RewriteAugAssign(CompilingNodeTransformer):
                 self.visit(node.value),
             ),
         )
-        return a
+        return copy_location(a, node)
diff --git a/opshin/rewrite/rewrite_tuple_assign.py b/opshin/rewrite/rewrite_tuple_assign.py
index 613f5f3..95aada2 100644
--- a/opshin/rewrite/rewrite_tuple_assign.py
+++ b/opshin/rewrite/rewrite_tuple_assign.py
@@ -52,6 +52,9 @@ class RewriteTupleAssign(CompilingNodeTransformer):
                 index=i,
             )
             assignments.append(assignment)
+        for assignment in assignments:
+            # errors are reported at the original assignment
+            copy_location(assignment, node)
         # recursively resolve multiple layers of tuples
         transformed = sum([self.visit(a) for a in assignments], [])
         return transformed
@@ -80,13 +83,16 @@ class RewriteTupleAssign(CompilingNodeTransformer):
         # iteratively assign the deconstructed parts to the original variable names
         for i, t in enumerate(node.target.elts):
             assignments.append(
-                Assign(
-                    [t],
-                    Subscript(
-                        value=Name(f"2_{uid}_tup", Load()),
-                        slice=Constant(i),
-                        ctx=Load(),
+                copy_location(
+                    Assign(
+                        [t],
+                        Subscript(
+                            value=Name(f"2_{uid}_tup", Load()),
+                            slice=Constant(i),
+                            ctx=Load(),
+                        ),
                     ),
+                    node.target,
                 )
             )
         new_for.body = assignments + node.body
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 2be3824..9027540 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -31,6 +31,7 @@ from .util import (
     distinct,
     TypedNodeVisitor,
     OPSHIN_LOGGER,
+    CompilerError,
     AnnotationNodeVisitor,
     AnnotationNodeReducer,
     AnnotationNodeTransformer,
@@ -893,6 +894,8 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     progress = True
                 except TypeInferenceError:
                     next_pending.append(class_node)
+                except Exception as e:
+                    raise CompilerError(e, class_node, self.step)
             if not progress and next_pending:
                 # Some imported class graphs can only be resolved later in strict statement order.
                 break
@@ -925,6 +928,8 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 # Some imported helpers can only be typed after earlier declarations.
                 # Defer those to the main definition pass.
                 continue
+            except Exception as e:
+                raise CompilerError(e, stmt, self.step)
 
     def predeclare_sequence_symbols(self, node_seq: typing.List[stmt]):
         self.predeclare_class_symbols(node_seq)
@@ -1038,7 +1043,13 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         return merged_scope
 
     def visit_sequence(self, node_seq: typing.List[stmt]) -> plt.AST:
-        node_seq = self.lower_class_methods_in_sequence(node_seq)
+        lowered_node_seq = []
+        for node in node_seq:
+            try:
+                lowered_node_seq += self.lower_class_methods_in_sequence([node])
+            except Exception as e:
+                raise CompilerError(e, node, self.step)
+        node_seq = lowered_node_seq
         first_function_defs = set()
         seen_function_names = set()
         for node in node_seq:
@@ -1180,6 +1191,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         return typed_ass
 
     def visit_AnnAssign(self, node: AnnAssign) -> TypedAnnAssign:
+        assert (
+            node.value is not None
+        ), "Declarations of variables without a value are not supported"
         typed_ass = copy(node)
         typed_ass.annotation = self.type_from_annotation(node.annotation)
         if isinstance(typed_ass.annotation, ListType) and (
-- 
2.43.0


From 6c215a765ddfc10b763124835ea06e4e6116a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:15 +0000
Subject: [PATCH 53/55] fix: expanded variants of functions took variables for
 parameters of the same name

---
 opshin/optimize/optimize_union_expansion.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/opshin/optimize/optimize_union_expansion.py b/opshin/optimize/optimize_union_expansion.py
index 0e20053..6c2426c 100644
--- a/opshin/optimize/optimize_union_expansion.py
+++ b/opshin/optimize/optimize_union_expansion.py
@@ -86,6 +86,19 @@ def split_specialized_function_name(
     return function_name.split(UNION_SPECIALIZATION_SEPARATOR, 1)
 
 
+def _rebound_names(stmt: FunctionDef) -> set[str]:
+    """Names that are bound inside a function, including its nested functions, other than by its parameters"""
+    names = set()
+    for node in walk(stmt):
+        if isinstance(node, Name) and not isinstance(node.ctx, Load):
+            names.add(node.id)
+        elif isinstance(node, arg) and node not in stmt.args.args:
+            names.add(node.arg)
+        elif isinstance(node, FunctionDef):
+            names.add(node.name)
+    return names
+
+
 class RewriteKnownIsinstanceChecks(CompilingNodeTransformer):
     def __init__(self, arg_types: dict[str, str]):
         self.arg_types = arg_types
@@ -127,8 +140,12 @@ class OptimizeUnionExpansion(CompilingNodeTransformer):
 
     def _union_arg_positions(self, stmt: FunctionDef) -> list[int]:
         positions = []
+        # the value of a parameter that is bound again can have another type
+        rebound_names = _rebound_names(stmt)
         for i, arg in enumerate(stmt.args.args):
-            if self.is_Union_annotation(arg.annotation):
+            if self.is_Union_annotation(arg.annotation) and (
+                arg.arg not in rebound_names
+            ):
                 positions.append(i)
         return positions
 
-- 
2.43.0


From 3ae6edb5fa7a3ec8978069b70bb0ca6a7bcd4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:04 +0000
Subject: [PATCH 54/55] fix: token_present_in_inputs could not be used as a
 condition

---
 opshin/prelude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/prelude.py b/opshin/prelude.py
index 9f8b9c5..6cb6280 100644
--- a/opshin/prelude.py
+++ b/opshin/prelude.py
@@ -137,7 +137,7 @@ def own_address(own_policy_id: PolicyId) -> Address:
     return Address(ScriptCredential(own_policy_id), NoStakingCredential())
 
 
-def token_present_in_inputs(token: Token, inputs: List[TxInInfo]):
+def token_present_in_inputs(token: Token, inputs: List[TxInInfo]) -> bool:
     """
     Returns whether the given token is spent in one of the inputs of the transaction
     """
-- 
2.43.0


From d4c93cb5e371ba59bc023eaef9c2214ae6164178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:13 +0000
Subject: [PATCH 55/55] fix: treasury withdrawals without a guardrails script
 could not be represented

---
 opshin/ledger/api_v3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/ledger/api_v3.py b/opshin/ledger/api_v3.py
index cd9ac1b..71edf2a 100644
--- a/opshin/ledger/api_v3.py
+++ b/opshin/ledger/api_v3.py
@@ -602,7 +602,7 @@ class GATreasuryWithdrawals(PlutusData):
     # is executed by the ledger in addition to the hard-coded ledger rules.
     #
     # It must pass for the withdrawals to be authorized.
-    guardrails: SomeScriptHash
+    guardrails: MaybeScriptHash
 
 
 @dataclass(unsafe_hash=True)
-- 
2.43.0

