From a98fa51aa567e30b5725cb780e7ecab4c70e70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:10 +0000
Subject: [PATCH 01/29] fix: serializing a MetricsQuery no longer rewrites its
 query in place

---
 snuba_sdk/metrics_query.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..1044385 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,19 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        optimized = self._optimize()
+        result = MQL_PRINTER.visit(optimized)
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return replace(self, query=replace(self.query, filters=new_filters))
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From 2910830bb916906d9a2969722884618474ac16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:12 +0000
Subject: [PATCH 02/29] fix: json_to_snql no longer strips the descending
 marker from the caller's orderby

---
 snuba_sdk/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..8556e29 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -323,7 +323,7 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-                    o[0] = first.lstrip("-")
+                    o = [first.lstrip("-"), *o[1:]]
                     direction = Direction.DESC
                 part = parse_exp(o)
             elif isinstance(o, str):
-- 
2.43.0


From f0678234e8f5a15ff42a1931108e7676e431cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:14 +0000
Subject: [PATCH 03/29] fix: Query.set_match accepts a Storage

---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From f48fea35c398c9f0776523361e266abbbc33fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:43 +0000
Subject: [PATCH 04/29] fix: names, aliases and identifiers ending in a newline
 are rejected

---
 snuba_sdk/column.py      | 2 +-
 snuba_sdk/entity.py      | 2 +-
 snuba_sdk/expressions.py | 2 +-
 snuba_sdk/function.py    | 4 ++--
 snuba_sdk/request.py     | 2 +-
 snuba_sdk/storage.py     | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 7c120f4..a0e9b5c 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -11,7 +11,7 @@ class InvalidColumnError(InvalidExpressionError):
     pass
 
 
-column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$")
+column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?\Z")
 
 
 @dataclass(frozen=True)
diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index cefeca6..1bb0577 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-entity_name_re = re.compile(r"^[a-zA-Z_]+$")
+entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidEntityError(Exception):
diff --git a/snuba_sdk/expressions.py b/snuba_sdk/expressions.py
index 8834353..805d70d 100644
--- a/snuba_sdk/expressions.py
+++ b/snuba_sdk/expressions.py
@@ -20,7 +20,7 @@ class Expression(ABC):
         raise NotImplementedError
 
 
-ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$")
+ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*\Z")
 
 
 # For type hinting
diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 7acde77..4278cfa 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -25,7 +25,7 @@ class InvalidFunctionError(InvalidExpressionError):
 # wasn't worth it to import an entire parsing grammar into the SDK
 # just to accomodate that one case. Instead, allow it for now and
 # once that use case is eliminated we can remove this.
-function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""")
+function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+\Z""")
 
 
 @dataclass(frozen=True)
@@ -115,7 +115,7 @@ class Function(CurriedFunction):
     )
 
 
-identifier_re = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidLambdaError(InvalidExpressionError):
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..2388f2f 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -40,7 +40,7 @@ class Flags:
         return {f: v for f, v in values.items() if v is not None}
 
 
-FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*$")
+FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*\Z")
 
 
 @dataclass
diff --git a/snuba_sdk/storage.py b/snuba_sdk/storage.py
index 429458c..38bb3e8 100644
--- a/snuba_sdk/storage.py
+++ b/snuba_sdk/storage.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-storage_name_re = re.compile(r"^[a-zA-Z_]+$")
+storage_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidStorageError(Exception):
-- 
2.43.0


From a1dc250ef8f4d833b4b55c18d540310c5c4165a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:00 +0000
Subject: [PATCH 05/29] fix: columns inside array and tuple literals are found
 and validated

---
 snuba_sdk/visitors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..98ac8b2 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -362,7 +362,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
 
         if func.parameters is not None:
             for param in func.parameters:
-                if isinstance(param, Expression):
+                if isinstance(param, (Expression, list, tuple)):
                     found |= self.visit(param)
 
         return found
@@ -414,7 +414,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
         if not is_unary(cond.op):
-            if isinstance(cond.rhs, Expression):
+            if isinstance(cond.rhs, (Expression, list, tuple)):
                 found |= self.visit(cond.rhs)
         return found
 
@@ -440,4 +440,8 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         return set()
 
     def _visit_scalar(self, value: Any) -> Set[Expression]:
-        return set()
+        found: set[Expression] = set()
+        if isinstance(value, (list, tuple)):
+            for v in value:
+                found |= self.visit(v)
+        return found
-- 
2.43.0


From 31b71b8c9792f12ae68431e2dc4ab763d2c370d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:25 +0000
Subject: [PATCH 06/29] fix: floats in MQL are printed without exponent
 notation, which MQL cannot parse

---
 snuba_sdk/metrics_visitors.py | 2 ++
 snuba_sdk/visitors.py         | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 885a389..1f98234 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -154,6 +154,8 @@ class FormulaMQLPrinter:
             return self.timeseries_visitor.visit(parameter)
         elif isinstance(parameter, Formula):
             return self.visit(parameter)
+        elif isinstance(parameter, float):
+            return self.expression_visitor.visit(parameter)
 
         return str(parameter)
 
diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 98ac8b2..85c9244 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from contextlib import contextmanager
 from datetime import date, datetime
+from decimal import Decimal
 from typing import Any, Generator, Generic, Set, TypeVar
 
 from snuba_sdk.aliased_expression import AliasedExpression
@@ -161,6 +162,9 @@ class Translation(ExpressionVisitor[str]):
             )
 
             return f"{quote_char}{decoded}{quote_char}"
+        elif isinstance(value, float) and self.is_mql:
+            # The MQL grammar has no exponent notation.
+            return format(Decimal(repr(value)), "f")
         elif isinstance(value, (int, float)):
             return f"{value}"
         elif isinstance(value, datetime):
-- 
2.43.0


From c29929252d0107eb8a6ec568b82d17f41d554154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:28 +0000
Subject: [PATCH 07/29] fix: string aggregate params of a Formula are quoted in
 MQL

---
 snuba_sdk/metrics_visitors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 1f98234..6ed819e 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -161,7 +161,8 @@ class FormulaMQLPrinter:
 
     def _visit_aggregate_params(self, aggregate_params: list[Any] | None) -> str:
         if aggregate_params:
-            return "(" + ", ".join(str(param) for param in aggregate_params) + ")"
+            params = [self.expression_visitor.visit(p) for p in aggregate_params]
+            return "(" + ", ".join(params) + ")"
         return ""
 
     def _visit_filters(self, filters: ConditionGroup | None) -> str:
-- 
2.43.0


From 866071b4fbc0bb95a86d362562a392fa57186549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:30 +0000
Subject: [PATCH 08/29] fix: MRIs containing MQL delimiters are printed in
 backticks

---
 snuba_sdk/metrics_visitors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 6ed819e..66913ad 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from abc import ABC, abstractmethod
 from dataclasses import asdict
 from typing import Any, Generic, Mapping, Sequence, TypeVar, Union
@@ -19,6 +20,8 @@ from snuba_sdk.visitors import Translation
 
 TVisited = TypeVar("TVisited")
 
+UNSAFE_MRI_RE = re.compile(r'[\s(){}\[\]",]')
+
 
 class TimeseriesVisitor(ABC, Generic[TVisited]):
     def visit(self, timeseries: Timeseries) -> TVisited:
@@ -208,6 +211,9 @@ class MetricVisitor(ABC, Generic[TVisited]):
 class MetricMQLPrinter(MetricVisitor[str]):
     def visit(self, metric: Metric) -> str:
         if metric.mri is not None:
+            # MRIs with characters that delimit MQL expressions have to be quoted.
+            if UNSAFE_MRI_RE.search(metric.mri):
+                return f"`{metric.mri}`"
             return metric.mri
 
         if metric.public_name is not None:
-- 
2.43.0


From 03fa33d109d682d531ba1ea8d472257e890059df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:46 +0000
Subject: [PATCH 09/29] fix: an unquoted MRI ends at whitespace instead of
 swallowing what follows

---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index b1670eb..a9ad97f 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -86,7 +86,7 @@ inner_filter = metric (open_brace (_ filter_expr _)? close_brace)? (group_by)?
 metric = quoted_mri / unquoted_mri / quoted_public_name / unquoted_public_name
 quoted_mri = backtick lenient_mri backtick
 lenient_mri = ~r'[^:`]+:[^/`]+/[^@,`]+@[^`]+'
-unquoted_mri = ~r'[^:\(\){}\[\]"`,]+:[^/\(\){}\[\]"`,]+/[^@\(\){}\[\]"`,]+@[^\(\){}\[\]"`,]+'
+unquoted_mri = ~r'[^:\(\){}\[\]"`,\s]+:[^/\(\){}\[\]"`,\s]+/[^@\(\){}\[\]"`,\s]+@[^\(\){}\[\]"`,\s]+'
 quoted_public_name = backtick unquoted_public_name backtick
 unquoted_public_name = ~r"([a-z_]+(?:\.[a-z_]+)*)"
 
-- 
2.43.0


From 7323ad9ebde05613c656aceddc924237feddbd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:12 +0000
Subject: [PATCH 10/29] fix: MQL filters with operators MQL cannot express are
 rejected, not printed as equality

---
 snuba_sdk/visitors.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 85c9244..26ede40 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -28,6 +28,9 @@ from snuba_sdk.relationships import Join, Relationship
 
 TVisited = TypeVar("TVisited")
 
+# The operators that can be expressed in an MQL filter.
+MQL_OPS = {Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE}
+
 
 class ExpressionVisitor(ABC, Generic[TVisited]):
     def visit(self, node: Expression) -> TVisited:
@@ -297,8 +300,10 @@ class Translation(ExpressionVisitor[str]):
 
     def _visit_condition_mql(self, cond: Condition) -> str:
         rhs = None
-        if is_unary(cond.op):
-            rhs = ""
+        if cond.op not in MQL_OPS:
+            raise InvalidExpressionError(
+                f"operator '{cond.op.value}' is not supported in conditions in MQL"
+            )
         elif isinstance(cond.rhs, (CurriedFunction, Function)):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
-- 
2.43.0


From fe9a95558aaeccbc36d9f63c7e9e82d73e7ac377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:15 +0000
Subject: [PATCH 11/29] fix: sample rates that need more than six decimals are
 not rounded

---
 snuba_sdk/visitors.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index 26ede40..a1466ee 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -247,6 +247,13 @@ class Translation(ExpressionVisitor[str]):
     def _visit_int_literal(self, literal: int) -> str:
         return f"{literal:d}"
 
+    def _format_sample(self, sample: float) -> str:
+        formatted = f"{sample:f}"
+        if float(formatted) != sample:
+            # Six decimals are not enough for this rate
+            formatted = format(Decimal(repr(sample)), "f")
+        return formatted
+
     def _visit_entity(self, entity: Entity) -> str:
         alias_clause = ""
         if entity.alias is not None and self.use_entity_aliases:
@@ -257,7 +264,7 @@ class Translation(ExpressionVisitor[str]):
             if entity.sample % 1 == 0:
                 sample_clause = f" SAMPLE {entity.sample:.1f}"
             else:
-                sample_clause = f" SAMPLE {entity.sample:f}"
+                sample_clause = f" SAMPLE {self._format_sample(entity.sample)}"
         return f"({alias_clause}{entity.name}{sample_clause})"
 
     def _visit_storage(self, storage: Storage) -> str:
@@ -266,7 +273,7 @@ class Translation(ExpressionVisitor[str]):
             if storage.sample % 1 == 0:
                 sample_clause = f" SAMPLE {storage.sample:.1f}"
             else:
-                sample_clause = f" SAMPLE {storage.sample:f}"
+                sample_clause = f" SAMPLE {self._format_sample(storage.sample)}"
         return f"STORAGE({storage.name}{sample_clause})"
 
     def _visit_relationship(self, relationship: Relationship) -> str:
-- 
2.43.0


From 2bb4a90fdffda9581e342fcd3bd734154d5901ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:19 +0000
Subject: [PATCH 12/29] fix: functions that compare equal have the same hash

---
 snuba_sdk/function.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 4278cfa..92e2b2e 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -107,6 +107,10 @@ class CurriedFunction(Expression):
             and self.parameters == other.parameters
         )
 
+    def __hash__(self) -> int:
+        # Equal functions can differ in alias and in type (Function, CurriedFunction)
+        return hash(self.function)
+
 
 @dataclass(frozen=True)
 class Function(CurriedFunction):
@@ -114,6 +118,8 @@ class Function(CurriedFunction):
         init=False, default=None
     )
 
+    __hash__ = CurriedFunction.__hash__
+
 
 identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
-- 
2.43.0


From 6bb717709613a704d4f570b247e2df8367e386a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:22 +0000
Subject: [PATCH 13/29] fix: the parameter types of nested formulas are
 validated

---
 snuba_sdk/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snuba_sdk/formula.py b/snuba_sdk/formula.py
index 19b3203..f805de6 100644
--- a/snuba_sdk/formula.py
+++ b/snuba_sdk/formula.py
@@ -67,6 +67,10 @@ class Formula:
                 has_timeseries = True
                 if param.groupby is not None:
                     groupbys.add(tuple(param.groupby))
+            elif not isinstance(param, tuple(FormulaParameter)):
+                raise InvalidFormulaError(
+                    f"parameter '{param}' of formula {self.function_name} is an invalid type"
+                )
 
         if not has_timeseries:
             raise InvalidFormulaError(
-- 
2.43.0


From ddffd70681e5b1db6463086b2a258572fc0eebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:52 +0000
Subject: [PATCH 14/29] fix: a legacy having clause with a single OR condition
 is accepted like in conditions

---
 snuba_sdk/legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 8556e29..4e12741 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -306,7 +306,10 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             for or_cond in cond:
                 or_conditions.append(parse_condition(or_cond))
 
-            having.append(Or(or_conditions))
+            if len(or_conditions) > 1:
+                having.append(Or(or_conditions))
+            else:
+                having.extend(or_conditions)
         else:
             having.append(parse_condition(cond))
 
-- 
2.43.0


From 6c1bbbb6948a85f98ca028f396fc6ca997a424db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:55 +0000
Subject: [PATCH 15/29] fix: legacy condition operators are recognised in any
 case, as is_condition assumes

---
 snuba_sdk/legacy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 4e12741..90cacfd 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -5,7 +5,7 @@ from functools import partial
 from typing import Any, Mapping, Optional, Sequence, Union
 
 from snuba_sdk.column import Column
-from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or
+from snuba_sdk.conditions import OPERATOR_TO_FUNCTION, Condition, Op, Or, is_unary
 from snuba_sdk.entity import Entity, get_required_time_column
 from snuba_sdk.function import Function
 from snuba_sdk.orderby import Direction, LimitBy, OrderBy
@@ -172,7 +172,8 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
     """
     rhs = None
     lhs = parse_exp(cond[0])
-    if cond[1] not in ["IS NULL", "IS NOT NULL"]:
+    op = Op(cond[1].upper())
+    if not is_unary(op):
         only_strings = False
         if isinstance(lhs, Column) and (
             lhs.subscriptable == "tags" or lhs.name == "release"
@@ -192,7 +193,7 @@ def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
 
         rhs = parse_scalar(cond[2], only_strings=only_strings)
 
-    return (lhs, Op(cond[1]), rhs)
+    return (lhs, op, rhs)
 
 
 def parse_condition(cond: Sequence[Any]) -> Condition:
-- 
2.43.0


From 0bf97c1172076bd9fef18e32d03730b05c1422fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:57 +0000
Subject: [PATCH 16/29] fix: nested legacy IS NULL expressions become isNull
 with one argument

---
 snuba_sdk/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 90cacfd..a145562 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -210,7 +210,8 @@ def parse_condition(cond: Sequence[Any]) -> Condition:
 
 def parse_condition_to_function(cond: Sequence[Any]) -> Function:
     lhs, op, rhs = _parse_condition_parts(cond)
-    return Function(OPERATOR_TO_FUNCTION[op].value, (lhs, rhs))
+    params = (lhs,) if is_unary(op) else (lhs, rhs)
+    return Function(OPERATOR_TO_FUNCTION[op].value, params)
 
 
 def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
-- 
2.43.0


From 18660e2ff80f73da55fe93aa784c4d220e716cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:59 +0000
Subject: [PATCH 17/29] fix: a subscripted column is checked against its
 entity's data model by its outer name

---
 snuba_sdk/column.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index a0e9b5c..622745e 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -46,6 +46,14 @@ class Column(Expression):
                 f"column '{self.name}' is empty or contains invalid characters"
             )
 
+        # If this is a subscriptable set these values to help with debugging etc.
+        # Because this is frozen we can't set the value directly.
+        if "[" in self.name:
+            subscriptable, key = self.name.split("[", 1)
+            key = key.strip("]")
+            super().__setattr__("subscriptable", subscriptable)
+            super().__setattr__("key", key)
+
         if self.entity is not None:
             if not isinstance(self.entity, Entity):
                 raise InvalidColumnError(f"column '{self.name}' expects an Entity")
@@ -56,14 +64,6 @@ class Column(Expression):
 
             self.validate_data_model(self.entity)
 
-        # If this is a subscriptable set these values to help with debugging etc.
-        # Because this is frozen we can't set the value directly.
-        if "[" in self.name:
-            subscriptable, key = self.name.split("[", 1)
-            key = key.strip("]")
-            super().__setattr__("subscriptable", subscriptable)
-            super().__setattr__("key", key)
-
     def validate_data_model(self, match: Union[Entity, Storage]) -> None:
         if match.data_model is None:
             return
-- 
2.43.0


From ecdeb64383c83d6b6d7b96ac35be92c635f3e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:01 +0000
Subject: [PATCH 18/29] fix: required columns are found in every spelling of an
 AND condition

---
 snuba_sdk/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/conditions.py b/snuba_sdk/conditions.py
index eea18b5..c1f78d5 100644
--- a/snuba_sdk/conditions.py
+++ b/snuba_sdk/conditions.py
@@ -149,7 +149,7 @@ ConditionGroup = Sequence[Union[BooleanCondition, Condition]]
 def get_first_level_and_conditions(conditions: ConditionGroup) -> ConditionGroup:
     flattened = []
     for cond in conditions:
-        if isinstance(cond, And):
+        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
             top_level = get_first_level_and_conditions(cond.conditions)
             flattened += [*top_level]
         else:
-- 
2.43.0


From e38d2e9896bca34fd98a186662a4b946c1109989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:03 +0000
Subject: [PATCH 19/29] fix: a rollup granularity of 0 is rejected

---
 snuba_sdk/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/timeseries.py b/snuba_sdk/timeseries.py
index a0612a8..2c33958 100644
--- a/snuba_sdk/timeseries.py
+++ b/snuba_sdk/timeseries.py
@@ -181,7 +181,10 @@ class Rollup:
     def validate(self) -> None:
         # The interval is used to determine how the timestamp is rolled up in the group by of the query.
         # The granularity is separate since it ultimately determines which data we retrieve.
-        if self.granularity and self.granularity not in ALLOWED_GRANULARITIES:
+        if (
+            self.granularity is not None
+            and self.granularity not in ALLOWED_GRANULARITIES
+        ):
             raise InvalidExpressionError(
                 f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
             )
-- 
2.43.0


From cad6e211f9a3c6c5b61a6441af68f9bd0adee350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:05 +0000
Subject: [PATCH 20/29] fix: an empty groupby is not printed as invalid MQL

---
 snuba_sdk/metrics_visitors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/metrics_visitors.py b/snuba_sdk/metrics_visitors.py
index 66913ad..543981c 100644
--- a/snuba_sdk/metrics_visitors.py
+++ b/snuba_sdk/metrics_visitors.py
@@ -94,7 +94,7 @@ def _visit_mql_filters(
 def _visit_mql_groupby(
     groupby: list[Column | AliasedExpression] | None, expression_visitor: Translation
 ) -> str:
-    if groupby is not None:
+    if groupby:
         return " by (" + ", ".join(expression_visitor.visit(c) for c in groupby) + ")"
     return ""
 
-- 
2.43.0


From 8e4ca7b79bb87a64f98b88e9f230e6962fba5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:16 +0000
Subject: [PATCH 21/29] fix: extra parameters of a curried function on a bare
 metric are rejected, not dropped

---
 snuba_sdk/mql/mql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index a9ad97f..d10f2b9 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -495,6 +495,10 @@ class MQLVisitor(NodeVisitor):  # type: ignore
             isinstance(target, Timeseries)
             and target.aggregate == AGGREGATE_PLACEHOLDER_NAME
         ):
+            if curried_arbitrary_function_params:
+                raise InvalidMQLQueryError(
+                    "Cannot use arbitrary functions on a Timeseries without an aggregate"
+                )
             return target.set_aggregate(
                 curried_arbitrary_function_name, aggregate_params
             )
-- 
2.43.0


From d7be0c0f4d319f5d3f5191fd39d090af4c72ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:34 +0000
Subject: [PATCH 22/29] fix: the body of a request does not share its
 tenant_ids with the request

---
 snuba_sdk/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index 2388f2f..392e03b 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -92,7 +92,7 @@ class Request:
                 **flags,
                 "query": self.query.serialize(),
                 "app_id": self.app_id,
-                "tenant_ids": self.tenant_ids,
+                "tenant_ids": dict(self.tenant_ids),
                 "parent_api": self.parent_api,
             }
         else:
@@ -103,7 +103,7 @@ class Request:
             "query": query,
             "dataset": self.dataset,
             "app_id": self.app_id,
-            "tenant_ids": self.tenant_ids,
+            "tenant_ids": dict(self.tenant_ids),
             "parent_api": self.parent_api,
         }
         if mql_context is not None:
-- 
2.43.0


From 16d62e8ab1312a9c7f466dcf9c056e960d5e3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:36 +0000
Subject: [PATCH 23/29] fix: the body of a delete query does not share its
 conditions with the query

---
 snuba_sdk/delete_query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/delete_query.py b/snuba_sdk/delete_query.py
index 40d2507..b839940 100644
--- a/snuba_sdk/delete_query.py
+++ b/snuba_sdk/delete_query.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from dataclasses import dataclass
 from typing import Any, Dict, List, Union
 
@@ -42,7 +43,7 @@ class DeleteQuery(BaseQuery):
     def serialize(self) -> Union[str, Dict[str, Any]]:
         # the body of the request
         self.validate()
-        return {"columns": self.column_conditions}
+        return {"columns": deepcopy(self.column_conditions)}
 
     def print(self) -> str:
         return repr(self)
-- 
2.43.0


From ba1e65d2016cad493e078401120fddf6b666364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:45 +0000
Subject: [PATCH 24/29] fix: MetricsQuery.set_indexer_mappings refuses what is
 not a dictionary, like the other set functions

---
 snuba_sdk/metrics_query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 1044385..2dcfdc0 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -81,6 +81,8 @@ class MetricsQuery(BaseQuery):
     def set_indexer_mappings(
         self, indexer_mappings: dict[str, str | int]
     ) -> MetricsQuery:
+        if not isinstance(indexer_mappings, dict):
+            raise InvalidQueryError("indexer_mappings must be a dictionary")
         return self._replace("indexer_mappings", indexer_mappings)
 
     def validate(self) -> None:
-- 
2.43.0


From 8520065269dcbd93c4feee59c4f1b0d9249c1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:58 +0000
Subject: [PATCH 25/29] fix: a filter key starting with "and" is not split into
 the operator and the rest of the key

---
 snuba_sdk/mql/mql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index d10f2b9..ebccdfa 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -99,7 +99,7 @@ close_brace = "}"
 comma = ","
 backtick = "`"
 colon = ":"
-and = "AND" / "and"
+and = ~r"(AND|and)(?![a-zA-Z0-9_.])"
 or = "OR" / "or"
 quote = "\""
 wildcard = "*"
-- 
2.43.0


From d91e1b3f4fe360cfe365f10862b2305d0a0b0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:09 +0000
Subject: [PATCH 26/29] fix: legacy orderby expressions given as tuples are
 translated like selected columns and groupbys

---
 snuba_sdk/legacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index a145562..821a9a9 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -325,7 +325,8 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
         order_bys = []
         for o in order_by:
             direction = Direction.ASC
-            if isinstance(o, list):
+            if isinstance(o, (list, tuple)):
+                o = list(o)
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
                     o = [first.lstrip("-"), *o[1:]]
-- 
2.43.0


From 4743ab5aaaaf2feb954c38805dd91568dfb30eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 27/29] fix: digits are part of the function names in legacy
 function texts

---
 snuba_sdk/snuba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/snuba.py b/snuba_sdk/snuba.py
index 209b4be..b7f540a 100644
--- a/snuba_sdk/snuba.py
+++ b/snuba_sdk/snuba.py
@@ -107,7 +107,7 @@ AGGREGATION_FUNCTIONS = {
     for suffix in _AGGREGATION_SUFFIXES
 }
 
-FUNCTION_NAME = re.compile(r"([a-zA-Z_]+)\(")
+FUNCTION_NAME = re.compile(r"([a-zA-Z_][a-zA-Z0-9_]*)\(")
 
 
 def is_aggregation_function(func_name: str, aliases: Optional[set[str]] = None) -> bool:
-- 
2.43.0


From 47ad541cfba5a633b26a8dcf9c3b2b8f221d2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:52 +0000
Subject: [PATCH 28/29] fix: entity aliases and relationship names that would
 change the query text are rejected

---
 snuba_sdk/entity.py        | 3 ++-
 snuba_sdk/relationships.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index 1bb0577..10051e0 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -6,6 +6,7 @@ from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
 entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
+entity_alias_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidEntityError(Exception):
@@ -31,7 +32,7 @@ class Entity(Expression):
                 raise InvalidEntityError("samples must be greater than 0.0")
 
         if self.alias is not None:
-            if not isinstance(self.alias, str) or not self.alias:
+            if not isinstance(self.alias, str) or not entity_alias_re.match(self.alias):
                 raise InvalidEntityError(f"'{self.alias}' is not a valid alias")
 
         if self.data_model is not None:
diff --git a/snuba_sdk/relationships.py b/snuba_sdk/relationships.py
index f8587a4..f65e608 100644
--- a/snuba_sdk/relationships.py
+++ b/snuba_sdk/relationships.py
@@ -1,11 +1,14 @@
 from __future__ import annotations
 
+import re
 from dataclasses import dataclass
 from typing import Any, MutableMapping, Sequence
 
 from snuba_sdk.entity import Entity
 from snuba_sdk.expressions import Expression, InvalidExpressionError
 
+relationship_name_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
+
 
 @dataclass(frozen=True)
 class Relationship(Expression):
@@ -41,7 +44,7 @@ class Relationship(Expression):
         valid_entity(self.lhs)
         valid_entity(self.rhs)
 
-        if not isinstance(self.name, str) or not self.name:
+        if not isinstance(self.name, str) or not relationship_name_re.match(self.name):
             raise InvalidExpressionError(
                 f"'{self.name}' is not a valid relationship name"
             )
-- 
2.43.0


From 9541a4aa492cc75c34b13a388375c369da6fd43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:28 +0000
Subject: [PATCH 29/29] fix: an outer query can use the aliased columns of its
 subquery

---
 snuba_sdk/query_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snuba_sdk/query_validation.py b/snuba_sdk/query_validation.py
index 6a67efd..26d1d02 100644
--- a/snuba_sdk/query_validation.py
+++ b/snuba_sdk/query_validation.py
@@ -6,6 +6,7 @@ from typing import Optional
 # https://github.com/agronholm/sphinx-autodoc-typehints#dealing-with-circular-imports
 from snuba_sdk import query as main
 from snuba_sdk import query_visitors as qvisitors
+from snuba_sdk.aliased_expression import AliasedExpression
 from snuba_sdk.column import Column
 from snuba_sdk.conditions import (
     Condition,
@@ -61,6 +62,8 @@ def _validate_subquery(match: main.Query, all_columns: set[Expression]) -> None:
         # outer query to reference that function using the alias.
         if isinstance(s, CurriedFunction):
             inner_column_names.add(s.alias)
+        elif isinstance(s, AliasedExpression):
+            inner_column_names.add(s.exp.name if s.alias is None else s.alias)
         elif isinstance(s, Column):
             inner_column_names.add(s.name)
 
-- 
2.43.0

