From 4fa6c57aa52c91b9e511c91f244eee241c869952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 01/27] fix: keep the prefix out of the identifier references
 of a prefixed unit

The prefix symbol and the unit symbol shared one dictionary, so a unit whose
symbol equals its prefix (mm, dd, hh, TT) lost its prefix and became unit^2.
---
 pyudunits2/_unit_system.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..11d0b36 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -232,15 +232,17 @@ class UnitSystem:
                         name_or_symbol[len(prefix_name) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                     if unit:
+                        # The prefix is put into the definition by value, since
+                        # its symbol can be identical to that of the unit (e.g.
+                        # "mm").
                         refs = {
-                            unit_graph.Identifier(prefix_name): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_name) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_name),
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_name) :]
                                 ),
@@ -256,15 +258,17 @@ class UnitSystem:
                         name_or_symbol[len(prefix_symbol) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                     if unit:
+                        # The prefix is put into the definition by value, since
+                        # its symbol can be identical to that of the unit (e.g.
+                        # "mm").
                         refs = {
-                            unit_graph.Identifier(prefix_symbol): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_symbol) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_symbol),
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_symbol) :]
                                 ),
-- 
2.43.0


From 78762adfa076de98a1c3333c69969a3d6efddfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 02/27] fix: parse a unicode exponent as an integer
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The exponent was kept as a string, so that the dimensionality of "m²" (and
everything which relies on it) raised a TypeError.
---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 3cf33c2..155a963 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -24,7 +24,12 @@ def handle_UNICODE_EXPONENT(string):
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
-    return graph.Number(normd, raw_content=normd)
+    try:
+        value = int(normd)
+    except ValueError:
+        # The grammar accepts any sequence of exponent characters, e.g. "m⁻".
+        raise SyntaxError(f"Invalid exponent {string!r}") from None
+    return graph.Number(value, raw_content=normd)
 
 
 class UnitParseVisitor(udunits2ParserVisitor):
-- 
2.43.0


From b247fe30cb0bed40f936324c1c710702a7a4791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 03/27] fix: log is the base 10 logarithm, as it is in UDUNITS2

---
 pyudunits2/_expr/sympy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 8ef49d7..23523f4 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -55,7 +55,7 @@ class ToSympy(unit_graph.Visitor):
             "lb": 2,
             "lg": 10,
             "ln": None,  # Sympy defaults to natual log.
-            "log": None,  # Unspecified by udunits2...
+            "log": 10,  # UDUNITS2 treats "log" as "lg".
         }
         base = bases[node.function]
         if base is None:
-- 
2.43.0


From a45a83375adada68e6256968101df7afea6284a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 04/27] fix: put brackets around operands in the string form of
 an expression
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

m/(s kg) and (m/s)^2 were written as m/s·kg and m/s^2, which are different
units (and which compared equal to them, since equality uses the string).
---
 pyudunits2/_expr/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 2b7fa53..ad8428b 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -101,6 +101,8 @@ class BinaryOp(Node):
 
 class Raise(BinaryOp):
     def __str__(self):
+        if isinstance(self.lhs, BinaryOp):
+            return f"({self.lhs})^{self.rhs}"
         return f"{self.lhs}^{self.rhs}"
 
 
@@ -111,8 +113,8 @@ class Multiply(BinaryOp):
 
 class Divide(BinaryOp):
     def __str__(self):
-        # TODO: It may be necessary to put brackets around
-        #  the rhs, depending on context (e.g. if rhs is a multiply)
+        if isinstance(self.rhs, (Multiply, Divide)):
+            return f"{self.lhs}/({self.rhs})"
         return f"{self.lhs}/{self.rhs}"
 
 
-- 
2.43.0


From ede56383aee9d03bd93074be03c7700f213dbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 05/27] fix: return a Dimensionality from
 BasisUnit.dimensionality

A plain dictionary has no inverted(), so that converting from, or asking for
the convertibility of, a basis unit raised an AttributeError.
---
 pyudunits2/_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bf728dc..a02e46b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -582,11 +582,11 @@ class BasisUnit(NamedUnit):
     def __str__(self):
         return self._ref
 
-    def dimensionality(self) -> dict[BasisUnit, int]:
+    def dimensionality(self) -> Dimensionality:
         if self._dimensionless:
-            return {}
+            return Dimensionality({})
         else:
-            return {self: 1}
+            return Dimensionality({self: 1})
 
     def is_time_unit(self):
         return self._is_time_unit
-- 
2.43.0


From 93ae428f0fd0259b9f19560db7e1e43684b94829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 06/27] fix: refuse to convert date units

DateUnit.is_convertible_to is always False, but Converter silently dropped the
reference date. The error message needs a string form of the date unit.
---
 pyudunits2/_unit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a02e46b..64c3d9e 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -193,7 +193,11 @@ class Converter:
 
         is_direct_conversion = from_dimensionality == to_dimensionality
         is_inverted_conversion = inverted_d == to_dimensionality
-        if not (is_direct_conversion or is_inverted_conversion):
+        # Date units need a calendar, and so are never convertible.
+        is_date_conversion = isinstance(from_unit, DateUnit) or isinstance(
+            to_unit, DateUnit
+        )
+        if is_date_conversion or not (is_direct_conversion or is_inverted_conversion):
             raise IncompatibleUnitsError(
                 f"Units {to_unit} and {from_unit} are not convertible"
             )
@@ -512,6 +516,9 @@ class DateUnit(UnitInterface):
         # TODO: This should be specialised for dates.
         return self._unit._symbolic_definition()
 
+    def __str__(self):
+        return f"{self._unit} since {self.reference_date}"
+
     def expanded(self):
         return f"{self._unit.expanded()} since {self.reference_date}"
 
-- 
2.43.0


From 18257686721510c23cf96e5b7756b415a85868fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 07/27] fix: do not change the unit system when looking up a
 unit

A lookup re-registered every name of the resolved unit, and so undid any later
registration of the same name. The lazy unit caches its own resolution.
---
 pyudunits2/_unit_system.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 11d0b36..ea070c4 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -202,14 +202,12 @@ class UnitSystem:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From 6f499c26c414fbf0c3262274cc7fc842c0916588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 08/27] fix: write the microseconds of a time with six digits

---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index e41cabe..3f21b04 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -15,7 +15,7 @@ class Time:
         if self.second or self.microseconds:
             t_str += f":{self.second:02}"
         if self.microseconds:
-            t_str += f".{self.microseconds:08}"
+            t_str += f".{self.microseconds:06}"
         return t_str
 
 
-- 
2.43.0


From 1af516018b6217e635cf4c483e30b6f58552def5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 09/27] fix: equal DateTime instances have equal hashes

The hash included the raw content, which the equality ignores.
---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index 3f21b04..05d034b 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -27,7 +27,7 @@ class DateTime:
     time: Time = Time(0, 0)
     tz_offset: Time | str = "UTC"
     #: The original representation of the date time before any parsing.
-    raw_content: str | None = None
+    raw_content: str | None = dataclasses.field(default=None, compare=False)
 
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, DateTime):
-- 
2.43.0


From 1c14d77d280e59391254ba85cf690ab65744804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 10/27] fix: the empty unit is dimensionless, as it is in
 UDUNITS2

It raised NotImplementedError.
---
 pyudunits2/_unit_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index ea070c4..7dd1c28 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -284,6 +284,9 @@ class UnitSystem:
 
     def unit(self, unit: str) -> Unit | DateUnit:
         unit_expr = parse(unit)
+        if unit_expr == unit_graph.Unhandled(""):
+            # The empty unit is dimensionless.
+            unit_expr = unit_graph.Number(1, raw_content="")
 
         identifiers = ExtractIdentifiers().visit(unit_expr)
 
-- 
2.43.0


From 7ad5bcd33146a5ff2a2474544c70a17240a25cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 11/27] fix: keep the order of the symbols of a prefix

A set of strings is ordered differently in every process.
---
 pyudunits2/_udunits2_xml_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..55fc127 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -118,9 +118,9 @@ class UDUNITS2XMLParser:
         # Keep the value as a string. We can parse it later.
         value: str = value_tag.text or ""
 
-        symbols = set()
+        symbols = []
         for symbol in tag.pop_iter_tags("symbol"):
-            symbols.add(symbol.text)
+            symbols.append(symbol.text)
 
         if tag.children or tag.text:
             cls.unhandled_content_detected(
-- 
2.43.0


From b16cc5f9725b2ced0b1f02bf0bec85d58d71ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 12/27] fix: form the plural of names which end in a consonant
 and a y

UDUNITS2 knows the plural of henry as henries, not as henrys.
---
 pyudunits2/_udunits2_xml_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 55fc127..2fd45cd 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -90,6 +90,8 @@ class UDUNITS2XMLParser:
             # not a noplural tag.
             if singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
                 plural_name = singular_name + "es"
+            elif singular_name.endswith("y") and singular_name[-2:-1] not in "aeiou":
+                plural_name = singular_name[:-1] + "ies"
             else:
                 plural_name = singular_name + "s"
 
-- 
2.43.0


From 0fc59aa385f4cde125ccec29be2b3f50032e10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 13/27] fix: refuse to register a unit whose alias is already
 taken

Only the names and symbols were checked, so that an alias silently replaced,
or was hidden by, the reference of another unit.
---
 pyudunits2/_unit_system.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 7dd1c28..e95a0c7 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -119,21 +119,40 @@ class UnitSystem:
         for symbol in prefix.symbols:
             self._prefix_symbols[symbol] = prefix
 
+    def _name_in_use(self, name: str) -> bool:
+        return name in self._names or name in self._alias_names
+
+    def _symbol_in_use(self, symbol: str) -> bool:
+        return symbol in self._symbols or symbol in self._alias_symbols
+
     def add_unit(self, unit: NamedUnit | LazilyDefinedUnit, replace=False) -> None:
         ref = unit._names
         if ref.name is not None:
-            if not replace and ref.name.singular in self._names:
+            if not replace and self._name_in_use(ref.name.singular):
                 raise ValueError(
                     f"unit name '{ref.name.singular}' already registered in "
                     "the system"
                 )
-            if not replace and ref.name.plural and ref.name.plural in self._names:
+            if not replace and ref.name.plural and self._name_in_use(ref.name.plural):
                 raise ValueError(
                     f"unit name '{ref.name.plural}' already registered in " "the system"
                 )
 
         for symbol in ref.symbols:
-            if not replace and symbol in self._symbols:
+            if not replace and self._symbol_in_use(symbol):
+                raise ValueError(
+                    f"unit symbol '{symbol}' already registered in the system"
+                )
+
+        for alias in ref.alias_names:
+            for name in (alias.singular, alias.plural):
+                if not replace and name and self._name_in_use(name):
+                    raise ValueError(
+                        f"unit name '{name}' already registered in the system"
+                    )
+
+        for symbol in ref.alias_symbols:
+            if not replace and self._symbol_in_use(symbol):
                 raise ValueError(
                     f"unit symbol '{symbol}' already registered in the system"
                 )
-- 
2.43.0


From be1fb2bc5e6cd2ab17dd404bb55426b14ff4e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 14/27] fix: dimensionless basis units are equivalent to 1 in a
 conversion

The symbol of the basis unit was left in the expression, so that converting 10
radian to 1 gave 10*radian.
---
 pyudunits2/_unit.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 64c3d9e..2df8d89 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -205,6 +205,14 @@ class Converter:
         t1, d1 = from_unit._symbolic_definition()
         t2, d2 = to_unit._symbolic_definition()
 
+        # The dimensionless basis units (e.g. radian) are equivalent to 1.
+        basis_values = {
+            sympy.Symbol(name): 1
+            for unit in (from_unit, to_unit)
+            for name in unit._dimensionless_basis()
+        }
+        t1, d1, t2, d2 = (expr.subs(basis_values) for expr in (t1, d1, t2, d2))
+
         to_symbol = sympy.symbols("value_transformed_to_base_unit_scale")
 
         orig_qty = sympy.symbols("value")
@@ -415,6 +423,15 @@ class Unit(UnitInterface):
         ).visit(self._definition)
         return result
 
+    def _dimensionless_basis(self) -> set[str]:
+        # The names, as found in the expanded expression, of the dimensionless
+        # basis units which this unit is made of.
+        result: set[str] = set()
+        for unit in self._identifier_references.values():
+            if not isinstance(unit, Prefix):
+                result |= unit._dimensionless_basis()
+        return result
+
     def expanded(self) -> str:
         expr = self._expanded_expr()
         # TODO: Simplify & normalise.
@@ -586,6 +603,9 @@ class BasisUnit(NamedUnit):
     def _expanded_expr(self):
         return self._definition
 
+    def _dimensionless_basis(self) -> set[str]:
+        return {self._ref} if self._dimensionless else set()
+
     def __str__(self):
         return self._ref
 
-- 
2.43.0


From f378ff243dd673c7080afe62267bf06be75bfce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 15/27] fix: keep the other units of a product which has an
 ignored shift

"W m-2 degC-1" lost the W m-2 from its definition, and the symbols of its basis
units ended up in the transformation of the value.
---
 pyudunits2/_expr/split.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8d58282..8630ff5 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -62,6 +62,14 @@ class SplitExpr(unit_graph.Visitor):
         if t1 is not None and t2 is not None:
             raise ValueError("Unable to apply two unit transformations")
 
+        # A unit belongs to the definition when the transformation is the
+        # identity (e.g. the ignored shift of "W degC-1").
+        identity = unit_graph.Identifier(name="value")
+        if t1 == identity and not isinstance(d2, unit_graph.Number):
+            return t1, unit_graph.Multiply(d1, d2)
+        if t2 == identity and not isinstance(d1, unit_graph.Number):
+            return t2, unit_graph.Multiply(d1, d2)
+
         if t1 is not None:
             return unit_graph.Multiply(t1, d2), d1
 
-- 
2.43.0


From 03efd9db4ff4f3ff9b13ba72ab1a54d2df60f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 16/27] fix: apply both shifts of a terminating shift of a
 shift

"degC @ 10" dropped the 273.15 of degC.
---
 pyudunits2/_expr/split.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8630ff5..fd3fd03 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -40,7 +40,11 @@ class SplitExpr(unit_graph.Visitor):
         # will not end up with dimensionless conversions.
         # For example, K @ 271 converted to K should shift the value 271, and
         # then the K/K will cancel out.
-        t1, d1 = self.visit(node.unit)
+        if node is self._root_node:
+            # A shift of a shift (e.g. degC @ 10) is terminating too.
+            t1, d1 = SplitExpr(node.unit).visit(node.unit)
+        else:
+            t1, d1 = self.visit(node.unit)
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
         # Looking at UDUNITS2, the shift is completely ignored in conversions
-- 
2.43.0


From 9e9347b8340f31ff453b394a8d5bf310bd6cef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 17/27] fix: compare what units mean, and not how they were
 written

Two units with the same definition string, but from unit systems which define
its names differently, were equal.
---
 pyudunits2/_unit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 2df8d89..3ed4d59 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -378,8 +378,7 @@ class Unit(UnitInterface):
             return NotImplemented
 
         assert isinstance(other, Unit)
-        # TODO: Use equality of the graph, not stringification.
-        if str(other._definition) == str(self._definition):
+        if other._expanded_expr() == self._expanded_expr():
             # Short-circuit identical definitions.
             return True
 
-- 
2.43.0


From f539719b46af9861ad1ea815703d69e930848696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 18/27] fix: allow several ignored shifts in one expression

"degC degC" raised ValueError, although the shift of each is ignored.
---
 pyudunits2/_expr/split.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index fd3fd03..08624de 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -54,6 +54,12 @@ class SplitExpr(unit_graph.Visitor):
         else:
             return t1, d1
 
+    @staticmethod
+    def _both_identity(t1: unit_graph.Node, t2: unit_graph.Node) -> bool:
+        # E.g. the ignored shifts of "degC degC", which leave the value as it is.
+        identity = unit_graph.Identifier(name="value")
+        return t1 == identity and t2 == identity
+
     def visit_Raise(self, node: unit_graph.Raise):
         t1, d1 = self.visit(node.lhs)
         t2, d2 = self.visit(node.rhs)
@@ -63,13 +69,15 @@ class SplitExpr(unit_graph.Visitor):
     def visit_Multiply(self, node: unit_graph.Multiply):
         t1, d1 = self.visit(node.lhs)
         t2, d2 = self.visit(node.rhs)
-        if t1 is not None and t2 is not None:
+        if t1 is not None and t2 is not None and not self._both_identity(t1, t2):
             raise ValueError("Unable to apply two unit transformations")
 
         # A unit belongs to the definition when the transformation is the
         # identity (e.g. the ignored shift of "W degC-1").
         identity = unit_graph.Identifier(name="value")
-        if t1 == identity and not isinstance(d2, unit_graph.Number):
+        if t1 == identity and (
+            t2 == identity or not isinstance(d2, unit_graph.Number)
+        ):
             return t1, unit_graph.Multiply(d1, d2)
         if t2 == identity and not isinstance(d1, unit_graph.Number):
             return t2, unit_graph.Multiply(d1, d2)
@@ -85,7 +93,7 @@ class SplitExpr(unit_graph.Visitor):
     def visit_Divide(self, node: unit_graph.Divide):
         t1, d1 = self.visit(node.lhs)
         t2, d2 = self.visit(node.rhs)
-        if t1 is not None and t2 is not None:
+        if t1 is not None and t2 is not None and not self._both_identity(t1, t2):
             raise ValueError("Unable to apply two unit transformations")
         return t1 or t2, unit_graph.Divide(d1, d2)
 
-- 
2.43.0


From c5ca02f653efd2c89ceba8533b4a615a7a62e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 19/27] fix: allow a base unit which has a symbol and no name

The reference of such a unit is its first symbol.
---
 pyudunits2/_udunits2_xml_parser.py | 4 +++-
 pyudunits2/_unit.py                | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 2fd45cd..ea1885e 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -215,7 +215,9 @@ class UDUNITS2XMLParser:
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
                 # Instead of implementing this special casing in the units handling,
                 # we attach a special attribute to a time basis unit.
-                is_time_unit = reference.name.singular == "second"
+                is_time_unit = (
+                    reference.name is not None and reference.name.singular == "second"
+                )
 
                 unit = BasisUnit(
                     names=reference,
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 3ed4d59..58e9740 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -582,7 +582,7 @@ class BasisUnit(NamedUnit):
     def __init__(
         self, *, names: Names, dimensionless: bool = False, is_time_unit: bool = False
     ):
-        ref = names.name.singular or names.symbols[0]
+        ref = names.name.singular if names.name is not None else names.symbols[0]
         self._ref = ref
         self._dimensionless = dimensionless
         self._is_time_unit = is_time_unit
-- 
2.43.0


From 4e0ad43a8bca354ec0b66009fb36d13de808acad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 20/27] fix: resolve a unit definition again after a later
 registration

---
 pyudunits2/_unit_system.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index e95a0c7..a160d31 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -39,9 +39,12 @@ class LazilyDefinedUnit:
         self._names = names
         # self._resolved_definition: Node | None = None
         self._resolved_unit: NamedUnit | None = None
+        # The state of the unit system for which the unit was resolved.
+        self._resolved_registrations: int | None = None
 
     def resolve(self) -> NamedUnit:
-        if self._resolved_unit is None:
+        registrations = self._unit_system._n_registrations
+        if self._resolved_unit is None or self._resolved_registrations != registrations:
             unit_expr = parse(self._definition)
 
             from ._expr.atoms import ExtractIdentifiers
@@ -58,6 +61,7 @@ class LazilyDefinedUnit:
                 identifier_references=identifier_references,
                 names=self._names,
             )
+            self._resolved_registrations = registrations
 
         return self._resolved_unit
 
@@ -94,6 +98,9 @@ class UnitSystem:
         self._prefix_names: dict[str, Prefix] = {}
         self._prefix_symbols: dict[str, Prefix] = {}
 
+        # Anything resolved before the latest registration may be out of date.
+        self._n_registrations = 0
+
     @classmethod
     def from_udunits2_xml(cls, path: pathlib.Path | None = None) -> UnitSystem:
         # Lazy import of the XML functionality, since it is not a
@@ -115,6 +122,7 @@ class UnitSystem:
             raise NotImplementedError("Not yet able to read from another XML file")
 
     def add_prefix(self, prefix: Prefix) -> None:
+        self._n_registrations += 1
         self._prefix_names[prefix.name] = prefix
         for symbol in prefix.symbols:
             self._prefix_symbols[symbol] = prefix
@@ -157,6 +165,7 @@ class UnitSystem:
                     f"unit symbol '{symbol}' already registered in the system"
                 )
 
+        self._n_registrations += 1
         if ref.name is not None:
             self._names[ref.name.singular] = unit
             if ref.name.plural:
-- 
2.43.0


From e0886ca9140edf92ccd8a72ad505f7bde4a09dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 21/27] fix: read unit-system documents which have no XML
 namespace

---
 pyudunits2/_udunits2_xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ea1885e..18eeb0d 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -31,7 +31,8 @@ class Tag:
 
     @classmethod
     def from_element(cls, element: etree.Element) -> Tag:
-        _, _, tag_name = element.tag.partition("}")
+        # (rpartition, since a tag without a namespace has no closing brace.)
+        _, _, tag_name = element.tag.rpartition("}")
 
         text = (element.text or "").strip()
         children = []
-- 
2.43.0


From 013ec868a8fc589a6e58955bb943956c1b29d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 22/27] fix: skip comments in unit-system documents

---
 pyudunits2/_udunits2_xml_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 18eeb0d..7467b8e 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -39,7 +39,9 @@ class Tag:
 
         if len(element) > 0:
             for child in element:
-                children.append(cls.from_element(child))
+                # Comments and processing instructions have no tag name.
+                if isinstance(child.tag, str):
+                    children.append(cls.from_element(child))
         return cls(name=tag_name, text=text, children=children)
 
     def pop_first_matching_tag(self, tag_name: str) -> Tag | None:
-- 
2.43.0


From 4cdb91367a68688f6a5914d49ee49a64a445b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 23/27] fix: ignore unknown elements inside names, symbols and
 definitions by default

They failed an assertion, also in the default loader.
---
 pyudunits2/_udunits2_xml_parser.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 7467b8e..53836a3 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -66,6 +66,11 @@ class UDUNITS2XMLParser:
     def unhandled_content_detected(cls, message: str) -> None:
         pass
 
+    @classmethod
+    def expect_no_children(cls, tag: Tag) -> None:
+        if tag.children:
+            cls.unhandled_content_detected(f"Unhandled content in {tag}")
+
     @classmethod
     def handle_name_tag(cls, tag: Tag) -> Name:
         singular_name_tag = tag.pop_first_matching_tag("singular")
@@ -73,12 +78,13 @@ class UDUNITS2XMLParser:
         if singular_name_tag is None:
             raise ValueError(f"Name for {tag} missing the singular tag")
         else:
-            assert not singular_name_tag.children
+            cls.expect_no_children(singular_name_tag)
             singular_name: str = singular_name_tag.text or ""
 
         # plural_name = content.pop('plural', None)
         plural_name_tag = tag.pop_first_matching_tag("plural")
         if plural_name_tag is not None:
+            cls.expect_no_children(plural_name_tag)
             plural_name = plural_name_tag.text
         else:
             plural_name = None
@@ -86,7 +92,8 @@ class UDUNITS2XMLParser:
         no_plural = tag.pop_first_matching_tag("noplural")
         if no_plural is not None:
             assert plural_name is None
-            assert not no_plural.children and not no_plural.text
+            assert not no_plural.text
+            cls.expect_no_children(no_plural)
         elif plural_name is None:
             # In the UDUNITS2 XML files, things like meters aren't defined.
             # You have to interpret a name as trivially plural iff there is
@@ -114,17 +121,18 @@ class UDUNITS2XMLParser:
 
         if name_tag is None:
             raise ValueError(f"Name missing in prefix {tag}")
-        assert not name_tag.children
+        cls.expect_no_children(name_tag)
         name: str = name_tag.text or ""
 
         if value_tag is None:
             raise ValueError(f"Value missing in prefix {tag}")
-        assert not value_tag.children
+        cls.expect_no_children(value_tag)
         # Keep the value as a string. We can parse it later.
         value: str = value_tag.text or ""
 
         symbols = []
         for symbol in tag.pop_iter_tags("symbol"):
+            cls.expect_no_children(symbol)
             symbols.append(symbol.text)
 
         if tag.children or tag.text:
@@ -161,6 +169,7 @@ class UDUNITS2XMLParser:
 
             symbols = []
             for symbol_tag in unit_tag.pop_iter_tags("symbol"):
+                cls.expect_no_children(symbol_tag)
                 symbols.append(symbol_tag.text)
 
             alias_names = []
@@ -174,7 +183,8 @@ class UDUNITS2XMLParser:
                     if alias.name == "name":
                         alias_names.append(cls.handle_name_tag(alias))
                     elif alias.name == "symbol":
-                        assert alias.text and not alias.children
+                        assert alias.text
+                        cls.expect_no_children(alias)
                         alias_symbols.append(alias.text)
                     elif alias.name == "noplural":
                         # Dropped. Seen in avogadro_constant.
@@ -198,7 +208,7 @@ class UDUNITS2XMLParser:
             )
             unit: Unit | LazilyDefinedUnit
             if basis_def is not None:
-                assert not basis_def.children
+                cls.expect_no_children(basis_def)
                 unit = LazilyDefinedUnit(
                     unit_system=system,
                     definition=basis_def.text or "",
@@ -207,12 +217,14 @@ class UDUNITS2XMLParser:
             else:
                 dimensionless = unit_tag.pop_first_matching_tag("dimensionless")
                 if dimensionless is not None:
+                    cls.expect_no_children(dimensionless)
                     dimensionless = True
                 else:
                     dimensionless = False
                     base_tag = unit_tag.pop_first_matching_tag("base")
                     assert base_tag is not None
-                    assert not base_tag.text and not base_tag.children
+                    assert not base_tag.text
+                    cls.expect_no_children(base_tag)
 
                 # Udunits2 knows about time units as a special case. For example
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
-- 
2.43.0


From d8c3e56fb34fa11428e5a978de66eecf7e4034a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 24/27] fix: treat a unit with an empty definition as
 dimensionless

---
 pyudunits2/_unit_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index a160d31..f2b4c13 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -46,6 +46,9 @@ class LazilyDefinedUnit:
         registrations = self._unit_system._n_registrations
         if self._resolved_unit is None or self._resolved_registrations != registrations:
             unit_expr = parse(self._definition)
+            if unit_expr == unit_graph.Unhandled(""):
+                # The empty definition is dimensionless.
+                unit_expr = unit_graph.Number(1, raw_content="")
 
             from ._expr.atoms import ExtractIdentifiers
 
-- 
2.43.0


From d38b2c928d1a937d782994195bc0281894684ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 25/27] fix: look up the identifiers of a unit in a fixed order

---
 pyudunits2/_unit_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index f2b4c13..c37af14 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -56,7 +56,7 @@ class LazilyDefinedUnit:
 
             identifier_references = {
                 identifier: self._unit_system.unit_by_name_or_symbol(identifier.content)
-                for identifier in identifiers
+                for identifier in sorted(identifiers, key=str)
             }
 
             self._resolved_unit = NamedUnit(
@@ -323,6 +323,6 @@ class UnitSystem:
 
         identifier_references = {
             identifier: self.unit_by_name_or_symbol(identifier.content)
-            for identifier in identifiers
+            for identifier in sorted(identifiers, key=str)
         }
         return _unit_from_expression_and_identifiers(unit_expr, identifier_references)
-- 
2.43.0


From 1b9f2ac38b3739502b16fd2ae3b134e5db1531d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:04 +0000
Subject: [PATCH 26/27] fix: compare the scale and origin of units exactly

---
 pyudunits2/_expr/sympy.py |  6 ++++++
 pyudunits2/_unit.py       | 32 ++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 23523f4..47cd6f2 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -18,6 +18,10 @@ _log = logging.getLogger(__name__)
 
 
 class ToSympy(unit_graph.Visitor):
+    def __init__(self, exact: bool = False):
+        # If exact, decimals become rationals, and not floating point numbers.
+        self._exact = exact
+
     if typing.TYPE_CHECKING:
 
         def visit(self, node: unit_graph.Node) -> sympy.core.expr.Expr: ...
@@ -32,6 +36,8 @@ class ToSympy(unit_graph.Visitor):
         if isinstance(node.content, str):
             return sympy_parse(node.content)
         elif isinstance(node.content, Decimal):
+            if self._exact:
+                return sympy.Rational(str(node.content))
             return sympy_parse(str(node.content))
         elif isinstance(node.content, (int, float)):
             return sympy_parse(str(node.content))
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 58e9740..ad75bc1 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -384,8 +384,10 @@ class Unit(UnitInterface):
 
         from sympy import simplify, expand
 
-        self_t, self_d = self._symbolic_definition()
-        other_t, other_d = other._symbolic_definition()
+        # (Floating point numbers are neither equal to the integer of the same
+        # value, nor exact.)
+        self_t, self_d = self._split_expanded_expr(exact=True)
+        other_t, other_d = other._split_expanded_expr(exact=True)
 
         eq = self_d - other_d
         sim = simplify(eq)
@@ -393,22 +395,24 @@ class Unit(UnitInterface):
 
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
-            from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr
+            self._cached_symbolic_definition = self._split_expanded_expr()
+        return self._cached_symbolic_definition
 
-            definition = self._expanded_expr()
-            t, d = SplitExpr(definition).visit(definition)
-            if t is not None:
-                transform = ToSympy().visit(t)
-            else:
-                import sympy
+    def _split_expanded_expr(self, exact: bool = False) -> tuple[SympyExpr, SympyExpr]:
+        from ._expr.sympy import ToSympy
+        from ._expr.split import SplitExpr
 
-                transform = sympy.Symbol("value")
+        to_sympy = ToSympy(exact=exact)
+        definition = self._expanded_expr()
+        t, d = SplitExpr(definition).visit(definition)
+        if t is not None:
+            transform = to_sympy.visit(t)
+        else:
+            import sympy
 
-            prepared = ToSympy().visit(d)
+            transform = sympy.Symbol("value")
 
-            self._cached_symbolic_definition = transform, prepared
-        return self._cached_symbolic_definition
+        return transform, to_sympy.visit(d)
 
     def _expanded_expr(self) -> Node:
         from ._expr.substitute import Substitute
-- 
2.43.0


From ff55426949ad13a6c9cc17f4c692747adaee0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 27/27] fix: refuse numbers out of range with ValueError

---
 pyudunits2/_grammar/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 155a963..7a72a7e 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -1,5 +1,5 @@
 import unicodedata
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 from .._expr import graph as graph
 from ._antlr4_runtime import (
@@ -32,6 +32,15 @@ def handle_UNICODE_EXPONENT(string):
     return graph.Number(value, raw_content=normd)
 
 
+def handle_FLOAT(string):
+    try:
+        value = Decimal(string)  # Preserve precision as decimal.
+    except InvalidOperation:
+        # E.g. "1e9999999999999999999", which no decimal can represent.
+        raise ValueError(f"Number {string!r} is out of range") from None
+    return graph.Number(value=value, raw_content=string)
+
+
 class UnitParseVisitor(udunits2ParserVisitor):
     """
     A visitor which converts the parse tree into an abstract expression graph.
@@ -46,9 +55,7 @@ class UnitParseVisitor(udunits2ParserVisitor):
         "DATE": str,
         "DIVIDE": "/",  # Drop context, such as " per ".
         "E_POWER": str,
-        "FLOAT": lambda c: graph.Number(
-            value=Decimal(c), raw_content=c
-        ),  # Preserve precision as decimal.
+        "FLOAT": handle_FLOAT,
         "HOUR_MINUTE_SECOND": str,
         "HOUR_MINUTE": str,
         "ID": graph.Identifier,
-- 
2.43.0

