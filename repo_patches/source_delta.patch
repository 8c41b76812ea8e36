From 959983084bb1b35bc40e7552c163575a7e5aba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 01/21] fix: prefixed units whose prefix and unit share an
 identifier (e.g. mm)

---
 pyudunits2/_unit_system.py | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..d187d41 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -232,20 +232,17 @@ class UnitSystem:
                         name_or_symbol[len(prefix_name) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                     if unit:
-                        refs = {
-                            unit_graph.Identifier(prefix_name): prefix,
-                            unit_graph.Identifier(
-                                name_or_symbol[len(prefix_name) :]
-                            ): unit,
-                        }
+                        # Use the value of the prefix (not its name), since a
+                        # prefix and a unit may share an identifier (for
+                        # example, both m's in mm).
+                        unit_identifier = unit_graph.Identifier(
+                            name_or_symbol[len(prefix_name) :]
+                        )
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_name),
-                                unit_graph.Identifier(
-                                    name_or_symbol[len(prefix_name) :]
-                                ),
+                                prefix._expanded_expr(), unit_identifier
                             ),
-                            identifier_references=refs,
+                            identifier_references={unit_identifier: unit},
                         )
                         break
 
@@ -256,20 +253,17 @@ class UnitSystem:
                         name_or_symbol[len(prefix_symbol) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                     if unit:
-                        refs = {
-                            unit_graph.Identifier(prefix_symbol): prefix,
-                            unit_graph.Identifier(
-                                name_or_symbol[len(prefix_symbol) :]
-                            ): unit,
-                        }
+                        # Use the value of the prefix (not its name), since a
+                        # prefix and a unit may share an identifier (for
+                        # example, both m's in mm).
+                        unit_identifier = unit_graph.Identifier(
+                            name_or_symbol[len(prefix_symbol) :]
+                        )
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_symbol),
-                                unit_graph.Identifier(
-                                    name_or_symbol[len(prefix_symbol) :]
-                                ),
+                                prefix._expanded_expr(), unit_identifier
                             ),
-                            identifier_references=refs,
+                            identifier_references={unit_identifier: unit},
                         )
                         break
 
-- 
2.43.0


From 761560873259043610fe820a7e565c8dcc246daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 02/21] fix: superscript exponents are integers, and malformed
 numbers are syntax errors

---
 pyudunits2/_grammar/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 3cf33c2..e28d3fb 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -24,7 +24,7 @@ def handle_UNICODE_EXPONENT(string):
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
-    return graph.Number(normd, raw_content=normd)
+    return graph.Number(int(normd), raw_content=normd)
 
 
 class UnitParseVisitor(udunits2ParserVisitor):
@@ -96,7 +96,12 @@ class UnitParseVisitor(udunits2ParserVisitor):
             handler = self.TERM_HANDLERS[name]
 
             if callable(handler):
-                result = handler(content)
+                try:
+                    result = handler(content)
+                except (ValueError, ArithmeticError) as err:
+                    # For example, an exponent of "⁺", or a number which is
+                    # too large to be represented.
+                    raise SyntaxError(f"Invalid {name} {content!r}") from err
             else:
                 result = handler
 
-- 
2.43.0


From a309058e048836284b5dd5e9f45fae6dbb911c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 03/21] fix: BasisUnit.dimensionality returns a Dimensionality,
 like any other unit

---
 pyudunits2/_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bf728dc..a02e46b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -582,11 +582,11 @@ class BasisUnit(NamedUnit):
     def __str__(self):
         return self._ref
 
-    def dimensionality(self) -> dict[BasisUnit, int]:
+    def dimensionality(self) -> Dimensionality:
         if self._dimensionless:
-            return {}
+            return Dimensionality({})
         else:
-            return {self: 1}
+            return Dimensionality({self: 1})
 
     def is_time_unit(self):
         return self._is_time_unit
-- 
2.43.0


From d01ddae39abdddc4b537d27b3f6ba038c9180d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 04/21] fix: bracket nested operands when rendering expressions
 as strings

---
 pyudunits2/_expr/graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 2b7fa53..328c0d3 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -101,18 +101,25 @@ class BinaryOp(Node):
 
 class Raise(BinaryOp):
     def __str__(self):
+        if isinstance(self.lhs, (Raise, Multiply, Divide)):
+            return f"({self.lhs})^{self.rhs}"
         return f"{self.lhs}^{self.rhs}"
 
 
 class Multiply(BinaryOp):
     def __str__(self):
+        if isinstance(self.rhs, Multiply):
+            # Multiplication is associative, so no brackets are needed.
+            return str(Multiply(Multiply(self.lhs, self.rhs.lhs), self.rhs.rhs))
+        if isinstance(self.rhs, Divide):
+            return f"{self.lhs}·({self.rhs})"
         return f"{self.lhs}·{self.rhs}"
 
 
 class Divide(BinaryOp):
     def __str__(self):
-        # TODO: It may be necessary to put brackets around
-        #  the rhs, depending on context (e.g. if rhs is a multiply)
+        if isinstance(self.rhs, (Multiply, Divide)):
+            return f"{self.lhs}/({self.rhs})"
         return f"{self.lhs}/{self.rhs}"
 
 
-- 
2.43.0


From 8fbdde15a759070d96dd86febf3a46f6465cd07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 05/21] fix: don't drop the factors of a shifted or logarithmic
 unit from its dimensionality

---
 pyudunits2/_unit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a02e46b..29d5ece 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -426,10 +426,8 @@ class Unit(UnitInterface):
 
     def dimensionality(self) -> Dimensionality:
         from ._expr.dimensionality import DimensionalityCounter
-        from ._expr.split import SplitExpr
 
-        _, d = SplitExpr(self._definition).visit(self._definition)
-        r = DimensionalityCounter().visit(d)
+        r = DimensionalityCounter().visit(self._definition)
 
         result = {}
         for identifier, order in r.items():
-- 
2.43.0


From c700004ba158862b23fd1bf1f03b32f8f3190500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 06/21] fix: apply every shift of a shifted unit (e.g. degC @
 10) when converting

---
 pyudunits2/_expr/split.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8d58282..5b56032 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -40,12 +40,17 @@ class SplitExpr(unit_graph.Visitor):
         # will not end up with dimensionless conversions.
         # For example, K @ 271 converted to K should shift the value 271, and
         # then the K/K will cancel out.
-        t1, d1 = self.visit(node.unit)
-        if t1 is None:
-            t1 = unit_graph.Identifier(name="value")
         # Looking at UDUNITS2, the shift is completely ignored in conversions
         # unless it is the terminating operation.
-        if node is self._root_node:
+        is_terminating = node is self._root_node
+        if is_terminating:
+            # The shift of a shift (e.g. degC @ 10) is terminating too.
+            t1, d1 = SplitExpr(node.unit).visit(node.unit)
+        else:
+            t1, d1 = self.visit(node.unit)
+        if t1 is None:
+            t1 = unit_graph.Identifier(name="value")
+        if is_terminating:
             return unit_graph.Shift(t1, node.shift_from), d1
         else:
             return t1, d1
-- 
2.43.0


From c51ecfe8db2d689b359760b94b35f090b39bce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 07/21] fix: factors of a shifted unit belong to its
 definition, not to the transformation of values

---
 pyudunits2/_expr/substitute.py | 22 ++++++++++++++++++++++
 pyudunits2/_unit.py            |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/pyudunits2/_expr/substitute.py b/pyudunits2/_expr/substitute.py
index 24aa1c0..4514951 100644
--- a/pyudunits2/_expr/substitute.py
+++ b/pyudunits2/_expr/substitute.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 from .graph import Visitor, Node
 import typing
 from . import graph as unit_graph
@@ -34,3 +36,23 @@ class Substitute(Visitor):
 
     def visit_Logarithm(self, node: unit_graph.Logarithm):
         return unit_graph.Logarithm(term=self.visit(node.term), function=node.function)
+
+
+class DropNestedShifts(Substitute):
+    """
+    Copy an expression without its shifts, other than the terminating ones.
+
+    UDUNITS2 ignores a shift which isn't the terminating operation of a unit.
+    For example, ``2 (K @ 273.15)`` is ``2 K``.
+
+    """
+
+    def __init__(self, root_node: Node):
+        super().__init__({})
+        self._root_node = root_node
+
+    def visit_Shift(self, node: unit_graph.Shift):
+        if node is not self._root_node:
+            return self.visit(node.unit)
+        unit = DropNestedShifts(node.unit).visit(node.unit)
+        return unit_graph.Shift(unit, node.shift_from)
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 29d5ece..ebd8df8 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -384,8 +384,10 @@ class Unit(UnitInterface):
         if self._cached_symbolic_definition is None:
             from ._expr.sympy import ToSympy
             from ._expr.split import SplitExpr
+            from ._expr.substitute import DropNestedShifts
 
             definition = self._expanded_expr()
+            definition = DropNestedShifts(definition).visit(definition)
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
                 transform = ToSympy().visit(t)
-- 
2.43.0


From 292823dadd23ccb117dbb3ddc0ae740a11c84950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 08/21] fix: looking up a unit no longer changes what the other
 names refer to

---
 pyudunits2/_unit_system.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index d187d41..39f6ba8 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -201,15 +201,19 @@ class UnitSystem:
     def _unit_by_name(self, name: str) -> Unit | None:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
+            # Note that the resolved unit is cached by the lazily defined unit.
+            # There is no need to re-register it, as doing so could replace
+            # another unit which has since taken one of its aliases.
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
+            # Note that the resolved unit is cached by the lazily defined unit.
+            # There is no need to re-register it, as doing so could replace
+            # another unit which has since taken one of its aliases.
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From 6bcdcd1fb8fdf8ca7111e5891e096d76d6e2a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 09/21] fix: pluralise names ending with a y as UDUNITS-2 does
 (e.g. henries)

---
 pyudunits2/_udunits2_xml_parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..c6394af 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -88,7 +88,15 @@ class UDUNITS2XMLParser:
             # In the UDUNITS2 XML files, things like meters aren't defined.
             # You have to interpret a name as trivially plural iff there is
             # not a noplural tag.
-            if singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
+            if (
+                singular_name.endswith("y")
+                and len(singular_name) > 1
+                and singular_name[-2] not in "aeiou"
+            ):
+                plural_name = singular_name[:-1] + "ies"
+            elif len(singular_name) > 1 and singular_name.endswith(
+                ("s", "ss", "sh", "ch", "x", "z")
+            ):
                 plural_name = singular_name + "es"
             else:
                 plural_name = singular_name + "s"
-- 
2.43.0


From 0b630897c8b44bce72cb67bf34347a9557be7240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 10/21] fix: refuse to convert date units, rather than ignoring
 their reference dates

---
 pyudunits2/_unit.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index ebd8df8..1c8d7c6 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -184,20 +184,16 @@ class Converter:
 
         import sympy
 
-        from_dimensionality = from_unit.dimensionality()
-        to_dimensionality = to_unit.dimensionality()
-
-        # It is also possible to simply invert the dimensionality. For example,
-        # m/s is simply 1/value s/m
-        inverted_d = from_dimensionality.inverted()
-
-        is_direct_conversion = from_dimensionality == to_dimensionality
-        is_inverted_conversion = inverted_d == to_dimensionality
-        if not (is_direct_conversion or is_inverted_conversion):
+        # Note that this excludes date units.
+        if not from_unit.is_convertible_to(to_unit):
             raise IncompatibleUnitsError(
                 f"Units {to_unit} and {from_unit} are not convertible"
             )
 
+        # If the dimensionality isn't the same, then it is the inverse. For
+        # example, m/s is simply 1/value s/m
+        is_direct_conversion = from_unit.dimensionality() == to_unit.dimensionality()
+
         t1, d1 = from_unit._symbolic_definition()
         t2, d2 = to_unit._symbolic_definition()
 
-- 
2.43.0


From d4e4c22ce0660b3255e90cce086d465f0732f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 11/21] fix: dimensionless basis units (e.g. radian) don't
 remain in a conversion

---
 pyudunits2/_unit.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 1c8d7c6..a51d5d6 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -220,6 +220,22 @@ class Converter:
         else:
             convert_expr = t2.subs(to_value, 1 / (transformer1 * d1 * d2))
 
+        # A basis unit which has no dimension (e.g. radian) doesn't necessarily
+        # cancel out, but it is nothing more than a name for the number one.
+        dimensionless_names = (
+            from_unit._dimensionless_basis_names()
+            | to_unit._dimensionless_basis_names()
+        )
+        convert_expr = convert_expr.subs(
+            {sympy.Symbol(name): 1 for name in dimensionless_names}
+        )
+        if convert_expr.free_symbols - {orig_qty}:
+            # For example, when a logarithmic unit has been multiplied by a
+            # unit which isn't dimensionless.
+            raise IncompatibleUnitsError(
+                f"Units {to_unit} and {from_unit} are not convertible"
+            )
+
         fn = sympy.lambdify(
             orig_qty,
             convert_expr,
@@ -227,10 +243,6 @@ class Converter:
         self.expression = convert_expr
         self._converter = fn
 
-        # TODO: Check that it is dimensionless.
-
-        return
-
     def convert(self, values):
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
@@ -439,6 +451,14 @@ class Unit(UnitInterface):
             {basis: order for basis, order in result.items() if order != 0}
         )
 
+    def _dimensionless_basis_names(self) -> set[str]:
+        # The names of the dimensionless basis units which define this unit.
+        names: set[str] = set()
+        for unit in self._identifier_references.values():
+            if isinstance(unit, Unit):
+                names |= unit._dimensionless_basis_names()
+        return names
+
     def is_dimensionless(self) -> bool:
         return self.dimensionality() == {}
 
@@ -584,6 +604,9 @@ class BasisUnit(NamedUnit):
         else:
             return Dimensionality({self: 1})
 
+    def _dimensionless_basis_names(self) -> set[str]:
+        return {self._ref} if self._dimensionless else set()
+
     def is_time_unit(self):
         return self._is_time_unit
 
-- 
2.43.0


From d70d88a0a5a794c27e720431488c66c9cd998eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 12/21] fix: units whose names have been redefined aren't equal
 merely because they print alike

---
 pyudunits2/_unit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a51d5d6..2465bff 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -375,8 +375,11 @@ class Unit(UnitInterface):
 
         assert isinstance(other, Unit)
         # TODO: Use equality of the graph, not stringification.
-        if str(other._definition) == str(self._definition):
-            # Short-circuit identical definitions.
+        if str(other._definition) == str(self._definition) and all(
+            other._identifier_references.get(identifier) is unit
+            for identifier, unit in self._identifier_references.items()
+        ):
+            # Short-circuit identical definitions (of the same units).
             return True
 
         from sympy import simplify, expand
-- 
2.43.0


From 24cd649b02c5c4844347174a4a4ca3056fa701a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 13/21] fix: apply the shift of a logarithmic unit's reference
 when converting, e.g. lg(re (K @ 1))

---
 pyudunits2/_expr/split.py      | 6 +++++-
 pyudunits2/_expr/substitute.py | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 5b56032..e79179e 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -83,7 +83,11 @@ class SplitExpr(unit_graph.Visitor):
         return t1 or t2, unit_graph.Divide(d1, d2)
 
     def visit_Logarithm(self, node: unit_graph.Logarithm):
-        t1, d1 = self.visit(node.term)
+        if node is self._root_node:
+            # The reference of a logarithmic unit may itself be shifted.
+            t1, d1 = SplitExpr(node.term).visit(node.term)
+        else:
+            t1, d1 = self.visit(node.term)
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
         return unit_graph.Logarithm(function=node.function, term=t1), d1
diff --git a/pyudunits2/_expr/substitute.py b/pyudunits2/_expr/substitute.py
index 4514951..475f755 100644
--- a/pyudunits2/_expr/substitute.py
+++ b/pyudunits2/_expr/substitute.py
@@ -56,3 +56,10 @@ class DropNestedShifts(Substitute):
             return self.visit(node.unit)
         unit = DropNestedShifts(node.unit).visit(node.unit)
         return unit_graph.Shift(unit, node.shift_from)
+
+    def visit_Logarithm(self, node: unit_graph.Logarithm):
+        if node is not self._root_node:
+            return super().visit_Logarithm(node)
+        # The reference of a logarithmic unit may itself be shifted.
+        term = DropNestedShifts(node.term).visit(node.term)
+        return unit_graph.Logarithm(term=term, function=node.function)
-- 
2.43.0


From a9114a81816216f6383aed7c2910a70b498aa38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 14/21] fix: basis units may be declared by a symbol alone

---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 pyudunits2/_unit.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index c6394af..2e5c79e 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -221,7 +221,7 @@ class UDUNITS2XMLParser:
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
                 # Instead of implementing this special casing in the units handling,
                 # we attach a special attribute to a time basis unit.
-                is_time_unit = reference.name.singular == "second"
+                is_time_unit = name is not None and name.singular == "second"
 
                 unit = BasisUnit(
                     names=reference,
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 2465bff..5abb53f 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -578,7 +578,7 @@ class BasisUnit(NamedUnit):
     def __init__(
         self, *, names: Names, dimensionless: bool = False, is_time_unit: bool = False
     ):
-        ref = names.name.singular or names.symbols[0]
+        ref = (names.name and names.name.singular) or names.symbols[0]
         self._ref = ref
         self._dimensionless = dimensionless
         self._is_time_unit = is_time_unit
-- 
2.43.0


From 6019c944b5e944e95f4e5400b0dd36328ccd0ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 15/21] fix: read XML unit databases which have no namespace,
 or which have comments

---
 pyudunits2/_udunits2_xml_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 2e5c79e..fd1239f 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -31,14 +31,14 @@ class Tag:
 
     @classmethod
     def from_element(cls, element: etree.Element) -> Tag:
-        _, _, tag_name = element.tag.partition("}")
+        tag_name = etree.QName(element).localname
 
         text = (element.text or "").strip()
         children = []
 
-        if len(element) > 0:
-            for child in element:
-                children.append(cls.from_element(child))
+        # Iterate over the elements only (i.e. not XML comments and the like).
+        for child in element.iterchildren(etree.Element):
+            children.append(cls.from_element(child))
         return cls(name=tag_name, text=text, children=children)
 
     def pop_first_matching_tag(self, tag_name: str) -> Tag | None:
-- 
2.43.0


From 30391bda20de04cfd533ceee9870000492705a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 16/21] fix: a dimensionless basis unit called 'value' isn't
 mistaken for the converted value

---
 pyudunits2/_unit.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 5abb53f..d792605 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -197,10 +197,11 @@ class Converter:
         t1, d1 = from_unit._symbolic_definition()
         t2, d2 = to_unit._symbolic_definition()
 
-        to_symbol = sympy.symbols("value_transformed_to_base_unit_scale")
+        # These can't be mistaken for a unit, whatever the unit's name.
+        to_symbol = sympy.Dummy("value_transformed_to_base_unit_scale")
+        to_value = sympy.Dummy("to_value")
 
         orig_qty = sympy.symbols("value")
-        to_value = sympy.symbols("to_value")
 
         # The t1 definition is the inverse of what we express. For example, lg(re value) means
         # we must 10^value to get the base unit scale value.
@@ -208,6 +209,15 @@ class Converter:
 
         t2 = t2.subs(orig_qty, to_value)
 
+        # A basis unit which has no dimension (e.g. radian) doesn't necessarily
+        # cancel out, but it is nothing more than a name for the number one.
+        dimensionless_names = (
+            from_unit._dimensionless_basis_names()
+            | to_unit._dimensionless_basis_names()
+        )
+        ones = {sympy.Symbol(name): 1 for name in dimensionless_names}
+        t1, d1, t2, d2 = (expr.subs(ones) for expr in (t1, d1, t2, d2))
+
         if t1 == orig_qty:
             transformer1 = orig_qty
         else:
@@ -220,15 +230,6 @@ class Converter:
         else:
             convert_expr = t2.subs(to_value, 1 / (transformer1 * d1 * d2))
 
-        # A basis unit which has no dimension (e.g. radian) doesn't necessarily
-        # cancel out, but it is nothing more than a name for the number one.
-        dimensionless_names = (
-            from_unit._dimensionless_basis_names()
-            | to_unit._dimensionless_basis_names()
-        )
-        convert_expr = convert_expr.subs(
-            {sympy.Symbol(name): 1 for name in dimensionless_names}
-        )
         if convert_expr.free_symbols - {orig_qty}:
             # For example, when a logarithmic unit has been multiplied by a
             # unit which isn't dimensionless.
-- 
2.43.0


From c01b50862c37ea51dfb87b62aaccf5dc5a215e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 17/21] fix: convert units which are shifted above nested
 logarithms, e.g. lg(re lg(re m)) @ 2

---
 pyudunits2/_unit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index d792605..ce23808 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -221,7 +221,9 @@ class Converter:
         if t1 == orig_qty:
             transformer1 = orig_qty
         else:
-            transformer1 = sympy.solve(t1 - orig_qty, to_symbol)
+            # Simplification would combine the logarithms of numbers, into ones which
+            # are too large to be evaluated, e.g. 100*log(10) to log(10**100).
+            transformer1 = sympy.solve(t1 - orig_qty, to_symbol, simplify=False)
             assert len(transformer1) == 1
             [transformer1] = transformer1
 
-- 
2.43.0


From bb63a98939000a8a64ed06cbdabd73d3b35863fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 18/21] fix: integer arrays wrapped around, or weren't raised
 to negative powers, on conversion

---
 pyudunits2/_unit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index ce23808..1309328 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -249,6 +249,11 @@ class Converter:
     def convert(self, values):
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
+        dtype = getattr(values, "dtype", None)
+        if dtype is not None and dtype.kind in "iu":
+            # The integers of an array wrap around silently when the result doesn't
+            # fit into their width, and can't be raised to negative powers.
+            values = values.astype(float)
         return self._converter(values)
 
 
-- 
2.43.0


From feb3e124c576dac7900f5c1fecc1fc2f0ebe909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:47 +0000
Subject: [PATCH 19/21] fix: converting nested logarithmic units with decimal
 shifts of many digits exhausted the memory

---
 pyudunits2/_unit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 1309328..a7e23b3 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -183,6 +183,7 @@ class Converter:
         self._to_unit = to_unit
 
         import sympy
+        from sympy.solvers.solveset import invert_complex
 
         # Note that this excludes date units.
         if not from_unit.is_convertible_to(to_unit):
@@ -221,9 +222,9 @@ class Converter:
         if t1 == orig_qty:
             transformer1 = orig_qty
         else:
-            # Simplification would combine the logarithms of numbers, into ones which
-            # are too large to be evaluated, e.g. 100*log(10) to log(10**100).
-            transformer1 = sympy.solve(t1 - orig_qty, to_symbol, simplify=False)
+            # Undo one shift or logarithm after the other. A general solver would turn
+            # the decimal shifts into exact fractions, which can be intractable.
+            _, transformer1 = invert_complex(t1, orig_qty, to_symbol)
             assert len(transformer1) == 1
             [transformer1] = transformer1
 
-- 
2.43.0


From 46884410c30baeeb24d8c76f0851037e96d23e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:15 +0000
Subject: [PATCH 20/21] fix: read XML databases in their own encoding, whatever
 the locale

---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index fd1239f..ff19d21 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -143,7 +143,7 @@ class UDUNITS2XMLParser:
 
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
-        with path.open("rt") as fh:
+        with path.open("rb") as fh:
             tree = etree.parse(fh)
         root = tree.getroot()
 
-- 
2.43.0


From e3a21c407e7c2c8405767475c50c6a7ec950b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:23 +0000
Subject: [PATCH 21/21] fix: XML comments and processing instructions cut the
 text which they are in

---
 pyudunits2/_udunits2_xml_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ff19d21..ca14bec 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -144,7 +144,10 @@ class UDUNITS2XMLParser:
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
         with path.open("rb") as fh:
-            tree = etree.parse(fh)
+            # A comment within a text would otherwise end the text.
+            tree = etree.parse(
+                fh, etree.XMLParser(remove_comments=True, remove_pis=True)
+            )
         root = tree.getroot()
 
         [unit_system] = root.xpath('//*[local-name()="unit-system"]')
-- 
2.43.0

