From e5aa672b4d621b5da1d6b3c60237f77ec960b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 01/22] fix: structural equality distinguishes the classes of
 nested nodes

---
 treeno/base.py     | 27 ++++++++++++++++++++++-----
 treeno/relation.py |  7 +++++--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/treeno/base.py b/treeno/base.py
index 0a2bb02..f13c5f5 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -17,7 +17,7 @@ from typing import TYPE_CHECKING, Any, ClassVar, Set, TypeVar
 
 import attr
 
-from treeno.util import is_abstract
+from treeno.util import is_abstract, is_dictlike
 
 if TYPE_CHECKING:
     from treeno.visitor import TreenoVisitor
@@ -58,6 +58,25 @@ class PrintOptions:
     spaces: int = attr.ib(default=4)
 
 
+def _identical(left: Any, right: Any) -> bool:
+    """Structural equality which, unlike comparing :func:`attr.asdict` outputs, distinguishes the classes of nested
+    nodes (``a + b`` and ``a * b`` have the same attributes).
+    """
+    if attr.has(type(left)) or attr.has(type(right)):
+        return type(left) is type(right) and all(
+            _identical(getattr(left, field.name), getattr(right, field.name))
+            for field in attr.fields(type(left))
+            if field.eq
+        )
+    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
+        return len(left) == len(right) and all(map(_identical, left, right))
+    if is_dictlike(left) and is_dictlike(right):
+        return left.keys() == right.keys() and all(
+            _identical(val, right[key]) for key, val in left.items()
+        )
+    return left == right
+
+
 @attr.s
 class Sql(ABC):
     """A base class for all SQL nodes in Treeno.
@@ -139,11 +158,9 @@ class Sql(ABC):
         Returns:
             True if both objects are equal, False otherwise.
         """
-        if not isinstance(other, Sql) or type(self) is not type(other):
+        if not isinstance(other, Sql):
             return False
-        self_dict = attr.asdict(self)
-        other_dict = attr.asdict(other)
-        return self_dict == other_dict
+        return _identical(self, other)
 
     def assert_equals(self, other: Any) -> None:
         """Assert whether two :class:`Sql` nodes are the same.
diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..2c5bdfb 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -570,8 +570,11 @@ class Table(Relation):
     schema: Optional[str] = attr.ib(default=None)
     catalog: Optional[str] = attr.ib(default=None)
 
-    # The table object will remember its own column_schema here.
-    _column_schema: Schema = attr.ib(factory=Schema.empty_schema)
+    # The table object will remember its own column_schema here. It's not a part of the reference itself, and its fields
+    # refer back to the table.
+    _column_schema: Schema = attr.ib(
+        factory=Schema.empty_schema, eq=False, repr=False
+    )
 
     def __attrs_post_init__(self) -> None:
         if self.catalog:
-- 
2.43.0


From d5ef67da781b592aedf1d95ec83815e1f38cc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 02/22] fix: escape quotes in names and literals, and quote
 names and intervals wherever they are printed

---
 treeno/builder/convert.py | 48 +++++++++++++++++++++++++++------------
 treeno/expression.py      | 18 ++++++++++-----
 treeno/relation.py        | 14 ++++++++----
 treeno/util.py            | 12 ++++++++--
 treeno/window.py          |  3 ++-
 5 files changed, 68 insertions(+), 27 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..bf277ca 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1,8 +1,10 @@
 """
 Converts from our grammar into a buildable query tree.
 """
+import re
 from decimal import Decimal
-from typing import Any, Dict, List, Optional, Tuple, Union
+from string import hexdigits
+from typing import Any, Dict, List, Match, Optional, Tuple, Union
 
 from overrides import overrides
 
@@ -89,7 +91,7 @@ from treeno.relation import (
     Unnest,
     ValuesQuery,
 )
-from treeno.util import nth
+from treeno.util import nth, unquote
 from treeno.window import (
     BoundedFrameBound,
     BoundType,
@@ -161,6 +163,31 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
     return Table(name=name, schema=schema, catalog=catalog)
 
 
+def decode_unicode_literal(text: str, escape: str) -> str:
+    """Decodes the body of a unicode string literal, where the escape character is followed by either itself, 4 hex
+    digits, or a plus sign and 6 hex digits.
+    """
+    if len(escape) != 1 or escape.isspace() or escape in hexdigits + "+'\"":
+        raise ValueError(f"Invalid unicode escape character {escape!r}")
+    code_point = r"([0-9A-Fa-f]{4})|\+([0-9A-Fa-f]{6})"
+
+    def decode(match: Match) -> str:
+        if match.group(0) == escape * 2:
+            return escape
+        if match.group(0) == escape:
+            raise ValueError(f"Invalid escape sequence in {text!r}")
+        code = int(match.group(1) or match.group(2), 16)
+        if 0xD800 <= code <= 0xDFFF:
+            raise ValueError(f"Invalid code point in {text!r}")
+        return chr(code)
+
+    return re.sub(
+        f"{re.escape(escape)}(?:{re.escape(escape)}|{code_point}|)",
+        decode,
+        text,
+    )
+
+
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
@@ -732,7 +759,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitBasicStringLiteral(
         self, ctx: SqlBaseParser.BasicStringLiteralContext
     ) -> str:
-        return ctx.getText().strip("'")
+        return unquote(ctx.getText())
 
     @overrides
     def visitUnicodeStringLiteral(
@@ -740,19 +767,12 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> str:
         if ctx.UESCAPE():
             assert ctx.STRING(), "Escape string must be supplied for unicode"
-            escape_seq = ctx.STRING().getText().strip("'")
+            escape_seq = unquote(ctx.STRING().getText())
         else:
             escape_seq = "\\"
-        s = (
-            ctx.UNICODE_STRING()
-            .getText()
-            .strip("U&")
-            .strip("'")
-            .replace(escape_seq, "\\u")
-            .encode("raw_unicode_escape")
-            .decode("unicode_escape")
+        return decode_unicode_literal(
+            unquote(ctx.UNICODE_STRING().getText()[len("U&") :]), escape_seq
         )
-        return s
 
     @overrides
     def visitBooleanLiteral(
@@ -956,7 +976,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return ctx.getText().strip('"')
+        return unquote(ctx.getText())
 
     @overrides
     def visitUnquotedIdentifier(
diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..2356b81 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.util import (
     is_dictlike,
     is_listlike,
     parenthesize,
+    quote_identifier,
     quote_literal,
 )
 
@@ -285,7 +286,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.sql(opts)} "{self.alias}"'
+        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -312,7 +313,7 @@ class Star(Value):
         star_string = ""
         if self.table:
             if isinstance(self.table, str):
-                table_sql = self.table
+                table_sql = quote_identifier(self.table)
             else:
                 table_sql = self.table.sql(opts)
             star_string = f"{table_sql}."
@@ -335,8 +336,10 @@ class AliasedStar(Value):
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        alias_str = join_stmts(self.aliases, opts)
-        return f"{self.star.sql(opts)} ({alias_str})"
+        alias_str = join_stmts(
+            [quote_identifier(alias) for alias in self.aliases], opts
+        )
+        return f"{self.star.sql(opts)} AS ({alias_str})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.star)
@@ -353,7 +356,7 @@ class Lambda(Expression):
         name: str = attr.ib()
 
         def sql(self, opts: PrintOptions) -> str:
-            return self.name
+            return quote_identifier(self.name)
 
         def identifier(self) -> Optional[str]:
             return self.name
@@ -925,7 +928,10 @@ class Interval(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-        return f"INTERVAL {self.value} {self.from_interval}" + to_interval_str
+        return (
+            f"INTERVAL {quote_literal(self.value)} {self.from_interval}"
+            + to_interval_str
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         pass
diff --git a/treeno/relation.py b/treeno/relation.py
index 2c5bdfb..c09aafc 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -517,7 +517,7 @@ class SelectQuery(Query):
         if self.window:
             window_string = join_stmts(
                 [
-                    f"{window_name} AS {parenthesize(window.sql(opts))}"
+                    f"{quote_identifier(window_name)} AS {parenthesize(window.sql(opts))}"
                     for window_name, window in self.window.items()
                 ],
                 opts,
@@ -750,13 +750,13 @@ class AliasedRelation(Relation):
         # .. todo:: Keep the "AS"?
         alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
         if self.column_aliases:
-            alias_str += f" ({join_stmts(self.column_aliases, opts)})"
+            alias_str += f" {_column_list_string(self.column_aliases, opts)}"
         return alias_str
 
     def _named_query_sql(self, opts: PrintOptions) -> str:
         alias_str = quote_identifier(self.alias)
         if self.column_aliases:
-            alias_str += f" {join_stmts(self.column_aliases, opts)}"
+            alias_str += f" {_column_list_string(self.column_aliases, opts)}"
         alias_str += f" AS {relation_string(self.relation, opts)}"
         return alias_str
 
@@ -840,7 +840,7 @@ class JoinUsingCriteria(JoinCriteria):
     column_names: List[str] = attr.ib()
 
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
-        return {"USING": parenthesize(join_stmts(self.column_names, opts))}
+        return {"USING": _column_list_string(self.column_names, opts)}
 
     def visit(self, visitor: GenericVisitor) -> None:
         # Using only references the fields, so this should do nothing
@@ -1095,6 +1095,12 @@ class TableSample(Relation):
         visitor.visit(self.percentage)
 
 
+def _column_list_string(names: List[str], opts: PrintOptions) -> str:
+    return parenthesize(
+        join_stmts([quote_identifier(name) for name in names], opts)
+    )
+
+
 def relation_string(
     relation: Relation,
     opts: PrintOptions,
diff --git a/treeno/util.py b/treeno/util.py
index 3c67115..33b2270 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -22,7 +22,8 @@ T = TypeVar("T")
 
 
 def quote_identifier(identifier: str) -> str:
-    return f'"{identifier}"'
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def parenthesize(val: Any) -> str:
@@ -42,7 +43,14 @@ def chain_identifiers(*identifiers: Optional[str], join_string=".") -> str:
 
 
 def quote_literal(literal: str) -> str:
-    return f"'{literal}'"
+    escaped = literal.replace("'", "''")
+    return f"'{escaped}'"
+
+
+def unquote(text: str) -> str:
+    """Inverse of :func:`quote_identifier` and :func:`quote_literal`"""
+    quote = text[0]
+    return text[1:-1].replace(quote * 2, quote)
 
 
 def nth(
diff --git a/treeno/window.py b/treeno/window.py
index bac3257..bd14f1a 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -14,6 +14,7 @@ from treeno.base import (
 from treeno.expression import Value, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
+from treeno.util import quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -102,7 +103,7 @@ class Window(Sql):
         builder = StatementPrinter()
         if self.parent_window:
             # Empty string for no value on the right side of the river
-            builder.add_entry(self.parent_window, "")
+            builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
                 [partition.sql(opts) for partition in self.partitions], opts
-- 
2.43.0


From ed3763c65f04986e4267c4694cb80bec4f18d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 03/22] fix: parenthesize operands and subqueries wherever the
 grammar needs it

---
 treeno/expression.py          | 111 +++++++++++++++++++++-------------
 treeno/functions/aggregate.py |   6 +-
 treeno/functions/base.py      |   2 +-
 treeno/functions/string.py    |  10 ++-
 treeno/groupby.py             |   8 +--
 treeno/orderby.py             |   2 +-
 treeno/relation.py            |  19 +++---
 treeno/window.py              |   4 +-
 8 files changed, 100 insertions(+), 62 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 2356b81..6179708 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -162,6 +162,14 @@ class Value(Sql, ABC):
         """
         return None
 
+    def nested_sql(self, opts: PrintOptions) -> str:
+        """Converts the value into a SQL string that can be used inside of another node.
+
+        This is the same as :func:`~treeno.base.Sql.sql` except for queries, which have to be parenthesized to be used
+        as a value.
+        """
+        return self.sql(opts)
+
 
 @value_attr
 class Expression(Value, ABC):
@@ -254,13 +262,9 @@ class Field(Value):
         return self.name
 
     def sql(self, opts: PrintOptions) -> str:
-        table_sql = None
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-        return chain_identifiers(table_sql, self.name)
+        if isinstance(self.table, Value):
+            return f"{_base_str(self.table, opts)}.{quote_identifier(self.name)}"
+        return chain_identifiers(self.table, self.name)
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -286,7 +290,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
+        return f"{self.value.nested_sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -315,7 +319,7 @@ class Star(Value):
             if isinstance(self.table, str):
                 table_sql = quote_identifier(self.table)
             else:
-                table_sql = self.table.sql(opts)
+                table_sql = _base_str(self.table, opts)
             star_string = f"{table_sql}."
         star_string += "*"
         return star_string
@@ -406,7 +410,7 @@ class Lambda(Expression):
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
         if len(self.inputs) > 1:
             input_string = parenthesize(input_string)
-        return f"{input_string} -> {self.expr.sql(opts)}"
+        return f"{input_string} -> {self.expr.nested_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.inputs:
@@ -453,20 +457,27 @@ def pemdas_str(
         current_type not in OPERATOR_PRECEDENCE
         or val_type not in OPERATOR_PRECEDENCE
     ):
-        return val.sql(opts)
+        return val.nested_sql(opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
     val_precedence = OPERATOR_PRECEDENCE[val_type]
-    # The expression's precedence is the same, so we must obey left-to-right ordering.
+    # The expression's precedence is the same, so we must obey left-to-right ordering. Predicates can't be chained.
     if current_precedence == val_precedence:
-        if is_left:
-            return val.sql(opts)
+        if is_left and current_precedence != PREDICATE_PRECEDENCE:
+            return val.nested_sql(opts)
         else:
-            return parenthesize(val)
+            return parenthesize(val.sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
-        return parenthesize(val)
-    return val.sql(opts)
+        return parenthesize(val.sql(opts))
+    return val.nested_sql(opts)
+
+
+def _base_str(base: Value, opts: PrintOptions) -> str:
+    """Prints the expression a field (or all fields) is dereferenced from"""
+    base_sql = pemdas_str(Subscript, base, opts)
+    # A dot following a number belongs to the number
+    return parenthesize(base_sql) if isinstance(base, Literal) else base_sql
 
 
 @value_attr
@@ -519,7 +530,11 @@ class Negative(UnaryExpression):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        return builtin_unary_str(self, "-{value}", opts)
+        value = pemdas_str(type(self), self.value, opts)
+        # A minus sign followed by a number is a negative literal, and two minus signs are a comment.
+        if value[0] in "-.0123456789":
+            value = parenthesize(value)
+        return f"-{value}"
 
 
 @value_attr
@@ -632,7 +647,7 @@ class NotEqual(BinaryExpression):
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
         if negate:
-            return str(Equal(self.left, self.right))
+            return Equal(self.left, self.right).sql(opts)
         return builtin_binary_str(self, "{left} <> {right}", opts)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -770,7 +785,9 @@ class Array(Expression):
         return cls(vals)
 
     def sql(self, opts: PrintOptions) -> str:
-        values_str = join_stmts([val.sql(opts) for val in self.values], opts)
+        values_str = join_stmts(
+            [val.nested_sql(opts) for val in self.values], opts
+        )
         return f"ARRAY[{values_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -810,7 +827,9 @@ class InList(Expression):
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        expr_list = join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+        expr_list = join_stmts(
+            [expr.nested_sql(opts) for expr in self.exprs], opts
+        )
         in_list_string = pemdas_str(type(self), self.value, opts)
         if negate:
             in_list_string += " NOT"
@@ -843,8 +862,7 @@ class Like(Expression):
             like_str += " NOT"
         like_str += f" LIKE {pemdas_str(type(self), self.pattern, opts)}"
         if self.escape:
-            # TODO: Should we pemdas this? I don't see it in the specs
-            like_str += f" ESCAPE {self.escape.sql(opts)}"
+            like_str += f" ESCAPE {pemdas_str(type(self), self.escape, opts)}"
         return like_str
 
     def sql(self, opts: PrintOptions) -> str:
@@ -899,9 +917,11 @@ class RowConstructor(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         values_string = join_stmts(
-            [value.sql(opts) for value in self.values], opts
+            [value.nested_sql(opts) for value in self.values], opts
         )
-        return f"({values_string})"
+        # A single parenthesized value is just that value
+        prefix = "ROW" if len(self.values) == 1 else ""
+        return f"{prefix}({values_string})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for value in self.values:
@@ -947,7 +967,7 @@ class Cast(Expression):
         assert self.data_type != unknown(), "data_type must be defined for Cast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"CAST({self.expr.nested_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -963,7 +983,7 @@ class TryCast(Expression):
         ), "data_type must be defined for TryCast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"TRY_CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"TRY_CAST({self.expr.nested_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -975,7 +995,7 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.sql(opts)}]"
+        return f"{pemdas_str(type(self), self.value, opts)}[{pemdas_str(Equal, self.index, opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -992,7 +1012,7 @@ class When(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"WHEN {self.condition.sql(opts)} THEN {self.value.sql(opts)}"
+        return f"WHEN {self.condition.nested_sql(opts)} THEN {self.value.nested_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.condition)
@@ -1007,7 +1027,7 @@ class Else(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"ELSE {self.value.sql(opts)}"
+        return f"ELSE {self.value.nested_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1036,7 +1056,9 @@ class Case(Expression):
             spacing + spacing.join([cond.sql(opts) for cond in conds]), 4
         )
         end_string = spacing + "END"
-        value_string = self.value.sql(opts) if self.value is not None else ""
+        value_string = (
+            self.value.nested_sql(opts) if self.value is not None else ""
+        )
         return f"CASE {value_string}{branches_string}{end_string}"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1053,7 +1075,10 @@ class Case(Expression):
 # https://docs.oracle.com/cd/B19306_01/server.102/b14200/conditions001.htm#i1034834
 # Still waiting to hear back about Trino's custom precedence:
 # https://trinodb.slack.com/archives/CFLB9AMBN/p1637528834018300
+# Predicates (including comparisons) can not be chained: a = b = c is not valid.
+PREDICATE_PRECEDENCE = 4
 OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
+    Subscript: 9,
     Positive: 8,
     Negative: 8,
     Multiply: 7,
@@ -1062,20 +1087,22 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Add: 6,
     Minus: 6,
     # TODO: Currently we run into an import loop trying to add Concatenate here, so we add it at the end in functions.common
-    Equal: 4,
-    NotEqual: 4,
-    GreaterThan: 4,
-    GreaterThanOrEqual: 4,
-    LessThan: 4,
-    LessThanOrEqual: 4,
-    IsNull: 3,
-    Like: 3,
-    Between: 3,
-    InList: 3,
-    InQuery: 3,
+    Equal: PREDICATE_PRECEDENCE,
+    NotEqual: PREDICATE_PRECEDENCE,
+    GreaterThan: PREDICATE_PRECEDENCE,
+    GreaterThanOrEqual: PREDICATE_PRECEDENCE,
+    LessThan: PREDICATE_PRECEDENCE,
+    LessThanOrEqual: PREDICATE_PRECEDENCE,
+    DistinctFrom: PREDICATE_PRECEDENCE,
+    IsNull: PREDICATE_PRECEDENCE,
+    Like: PREDICATE_PRECEDENCE,
+    Between: PREDICATE_PRECEDENCE,
+    InList: PREDICATE_PRECEDENCE,
+    InQuery: PREDICATE_PRECEDENCE,
     Not: 2,
     And: 1,
     Or: 0,
+    Lambda: -1,
 }
 
 # Use this instead of wrap_literal(None), which we explicitly disallow
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 75720e6..b5a42e5 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -46,7 +46,7 @@ class AggregateFunction(Function, ABC):
         constraint_builder = StatementPrinter()
         if self.filter_:
             constraint_builder.add_entry(
-                "FILTER", f"(WHERE {self.filter_.sql(opts)})"
+                "FILTER", f"(WHERE {self.filter_.nested_sql(opts)})"
             )
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
@@ -63,7 +63,7 @@ class AggregateFunction(Function, ABC):
         )
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.nested_sql(opts) for value in values], opts)
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
         # indentation level would be good for visibility.
@@ -244,7 +244,7 @@ class ListAgg(AggregateFunction):
         self.data_type = varchar()
 
     def sql(self, opts: PrintOptions) -> str:
-        value_string = self.value.sql(opts)
+        value_string = self.value.nested_sql(opts)
         if self.separator != self.DEFAULT_SEPARATOR:
             value_string = join_stmts(
                 [value_string, quote_literal(self.separator)], opts
diff --git a/treeno/functions/base.py b/treeno/functions/base.py
index 76b8e12..b965d2f 100644
--- a/treeno/functions/base.py
+++ b/treeno/functions/base.py
@@ -56,7 +56,7 @@ class Function(Expression, ABC):
         return cls(*values, **kwargs)
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.nested_sql(opts) for value in values], opts)
         return f"{FUNCTIONS_TO_NAMES[type(self)]}({arg_string})"
 
 
diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index aadcf0a..2ccd519 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -11,7 +11,13 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Value, value_attr, wrap_literal
+from treeno.expression import (
+    Equal,
+    Value,
+    pemdas_str,
+    value_attr,
+    wrap_literal,
+)
 from treeno.functions.base import Function
 from treeno.printer import join_stmts
 
@@ -268,7 +274,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.to_sql(opts)]
+        components = [pemdas_str(Equal, self.string, opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6e46521..81fe017 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -44,8 +44,8 @@ class GroupingSet(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         if len(self.values) == 1:
-            return self.values[0].sql(opts)
-        return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            return self.values[0].nested_sql(opts)
+        return f"({join_stmts([val.nested_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
@@ -90,7 +90,7 @@ class Cube(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         return (
-            f"CUBE ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            f"CUBE ({join_stmts([val.nested_sql(opts) for val in self.values], opts)})"
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -113,7 +113,7 @@ class Rollup(Group):
         ), "GroupingSets must have at least one value to group by"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"ROLLUP ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+        return f"ROLLUP ({join_stmts([val.nested_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
diff --git a/treeno/orderby.py b/treeno/orderby.py
index 58d9b88..c053166 100644
--- a/treeno/orderby.py
+++ b/treeno/orderby.py
@@ -37,7 +37,7 @@ class OrderTerm(Sql):
     null_order: NullOrder = attr.ib(factory=NullOrder.default)
 
     def sql(self, opts: PrintOptions):
-        order_string = self.value.sql(opts)
+        order_string = self.value.nested_sql(opts)
         if self.order_type != OrderType.default():
             order_string += f" {self.order_type.name}"
         if self.null_order != NullOrder.default():
diff --git a/treeno/relation.py b/treeno/relation.py
index c09aafc..ae23eeb 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -194,6 +194,9 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
 
+    def nested_sql(self, opts: PrintOptions) -> str:
+        return parenthesize(self.sql(opts))
+
     def _with_query_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of the WITH clause to the queries.
 
@@ -495,7 +498,9 @@ class SelectQuery(Query):
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
-        select_value = join_stmts([val.sql(opts) for val in self.select], opts)
+        select_value = join_stmts(
+            [val.nested_sql(opts) for val in self.select], opts
+        )
         # All is the default, so we don't need to mention it
         if self.select_quantifier != SetQuantifier.default():
             select_value = self.select_quantifier.name + " " + select_value
@@ -509,11 +514,11 @@ class SelectQuery(Query):
                 relation_str = pad(parenthesize(relation_str), 1)
             builder.add_entry("FROM", relation_str)
         if self.where:
-            builder.add_entry("WHERE", self.where.sql(opts))
+            builder.add_entry("WHERE", self.where.nested_sql(opts))
         if self.groupby:
             builder.add_entry("GROUP", "BY " + self.groupby.sql(opts))
         if self.having:
-            builder.add_entry("HAVING", self.having.sql(opts))
+            builder.add_entry("HAVING", self.having.nested_sql(opts))
         if self.window:
             window_string = join_stmts(
                 [
@@ -702,7 +707,7 @@ class ValuesQuery(Query):
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
         builder.add_entry(
-            "VALUES", join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+            "VALUES", join_stmts([expr.nested_sql(opts) for expr in self.exprs], opts)
         )
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
@@ -871,7 +876,7 @@ class JoinOnCriteria(JoinCriteria):
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         # For complex boolean expressions i.e. conjunctions and disjunctions we have a new line, so we have to
         # indent it here for readability
-        return {"ON": pad(self.constraint.sql(opts), opts.spaces)}
+        return {"ON": pad(self.constraint.nested_sql(opts), opts.spaces)}
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.constraint)
@@ -994,7 +999,7 @@ class Unnest(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
-            f"UNNEST({join_stmts([arr.sql(opts) for arr in self.arrays], opts)})"
+            f"UNNEST({join_stmts([arr.nested_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
             str_builder += " WITH ORDINALITY"
@@ -1084,7 +1089,7 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.nested_sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
diff --git a/treeno/window.py b/treeno/window.py
index bd14f1a..1e92b9f 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -53,7 +53,7 @@ class BoundedFrameBound(FrameBound):
     offset: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.offset.sql(opts)} {self.bound_type.value}"
+        return f"{self.offset.nested_sql(opts)} {self.bound_type.value}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.offset)
@@ -106,7 +106,7 @@ class Window(Sql):
             builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
-                [partition.sql(opts) for partition in self.partitions], opts
+                [partition.nested_sql(opts) for partition in self.partitions], opts
             )
             builder.add_entry("PARTITION", "BY " + partition_value)
         if self.orderby:
-- 
2.43.0


From 44c750a2dee70b4fa3cd2d14b948484e00b09854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 04/22] fix: indentation leaves line breaks inside of literals
 and names alone

---
 treeno/printer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 9eb88d5..8bfb126 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -4,6 +4,7 @@ StatementPrinter complies with sqlstyle.guide.
 Note that none of these printers are explicitly responsible for calling sql(). They should work only with the
 primitive str representation.
 """
+import re
 from typing import Dict, List
 
 import attr
@@ -12,12 +13,16 @@ from treeno.base import PrintMode, PrintOptions
 
 
 def pad(input: str, spaces: int) -> str:
-    """Pads the input lines with spaces except for the first line.
+    """Pads the input lines with spaces except for the first line. Line breaks inside of quotes belong to a literal or a
+    name, so they're left untouched.
     We don't need opts here because the default mode will always be a single line so we'll never invoke this.
     """
-    lines = input.splitlines()
     pad = " " * spaces
-    return f"\n{pad}".join(lines)
+    return re.sub(
+        r"""'[^']*'|"[^"]*"|\n""",
+        lambda m: f"\n{pad}" if m.group(0) == "\n" else m.group(0),
+        input,
+    )
 
 
 def join_stmts(
-- 
2.43.0


From 441fd195fae002049b18a668482971b29577a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 05/22] fix: print zero limits and offsets, and the clauses of
 set operations

---
 treeno/relation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index ae23eeb..461f35a 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -192,7 +192,7 @@ class Query(Relation, Value, ABC):
     offset: Optional[int] = attr.ib(default=None, kw_only=True)
     limit: Optional[int] = attr.ib(default=None, kw_only=True)
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
-    with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
+    with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
     def nested_sql(self, opts: PrintOptions) -> str:
         return parenthesize(self.sql(opts))
@@ -248,9 +248,9 @@ class Query(Relation, Value, ABC):
             str_builder["ORDER"] = "BY " + join_stmts(
                 [order.sql(opts) for order in self.orderby], opts
             )
-        if self.offset:
+        if self.offset is not None:
             str_builder["OFFSET"] = str(self.offset)
-        if self.limit:
+        if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
@@ -321,7 +321,12 @@ class SetQuery(Query, ABC):
         query_string += f" {self.set_quantifier.name}"
         query_string += spacing
         query_string += relation_string(self.right_query, opts, newline=False)
-        return query_string
+        builder = StatementPrinter(river=False)
+        builder.update(self._with_query_string_builder(opts))
+        # No value to the key, which is just the set operation itself
+        builder.add_entry(query_string, "")
+        builder.update(self._constraint_string_builder(opts))
+        return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
         left_schema = self.left_query.resolve(
-- 
2.43.0


From 4e6a124a1a1f68887871877c7ee7fe4ff4a342c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 06/22] fix: parenthesize nested relations, print WITH
 ORDINALITY, and reject joins that can't be written

---
 treeno/relation.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 461f35a..4c12dc6 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -758,7 +758,12 @@ class AliasedRelation(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         # .. todo:: Keep the "AS"?
-        alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
+        relation_sql = relation_string(
+            self.relation,
+            opts,
+            special_parenthesize_relations=[Join, AliasedRelation, TableSample],
+        )
+        alias_str = f"{relation_sql} {quote_identifier(self.alias)}"
         if self.column_aliases:
             alias_str += f" {_column_list_string(self.column_aliases, opts)}"
         return alias_str
@@ -906,6 +911,11 @@ class JoinConfig(Sql):
     def __attrs_post_init__(self):
         if self.join_type == JoinType.CROSS:
             assert not self.criteria, "Cross joins cannot specify join criteria"
+            assert not self.natural, "Cross joins cannot be natural"
+        else:
+            assert (
+                self.natural or self.criteria
+            ), "Joins must be natural or specify join criteria unless they're cross joins"
 
         if self.criteria:
             assert (
@@ -943,7 +953,11 @@ class Join(Relation):
         if self.config.natural:
             join_type += "NATURAL "
         join_type += f"{self.config.join_type.value} JOIN"
-        builder.add_entry(join_type, relation_string(self.right_relation, opts))
+        # Joins are left associative
+        right_string = relation_string(
+            self.right_relation, opts, special_parenthesize_relations=[Join]
+        )
+        builder.add_entry(join_type, right_string)
         if self.config.criteria is not None:
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
@@ -1007,7 +1021,7 @@ class Unnest(Relation):
             f"UNNEST({join_stmts([arr.nested_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
-            str_builder += " WITH ORDINALITY"
+            str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
     def resolve(self, existing_schema: Schema) -> Schema:
@@ -1092,7 +1106,7 @@ class TableSample(Relation):
             self.relation,
             opts,
             newline=False,
-            special_parenthesize_relations=[Join],
+            special_parenthesize_relations=[Join, TableSample],
         )
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.nested_sql(opts)})"
 
-- 
2.43.0


From 363b18b5d7a3a9130dc45f2b8b388c89c8b16c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 07/22] fix: reject text with syntax errors or trailing input

---
 treeno/grammar/parse.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index fab0f67..adf0af1 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -2,8 +2,10 @@ from io import StringIO
 
 import nltk
 from antlr4 import CommonTokenStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
+from antlr4.Token import Token
 from antlr4.tree.Trees import Trees
 
 try:
@@ -17,6 +19,15 @@ except ImportError:
     raise
 
 
+class RaisingErrorListener(ErrorListener):
+    """By default, ANTLR prints syntax errors and carries on with whatever it could make sense of."""
+
+    def syntaxError(
+        self, recognizer, offendingSymbol, line, column, msg, e
+    ) -> None:
+        raise ValueError(f"Syntax error at line {line}:{column}: {msg}")
+
+
 class AST:
     """Basic building block for SQL parse tree. This is not meant to be used directly, but is rather an intermediate
     layer to operate on to create a pypika interface."""
@@ -27,14 +38,28 @@ class AST:
     def parser(self) -> SqlBaseParser:
         lexer = SqlBaseLexer(InputStream(data=self._sql))
         stream = CommonTokenStream(lexer)
-        return SqlBaseParser(stream)
+        parser = SqlBaseParser(stream)
+        for recognizer in (lexer, parser):
+            recognizer.removeErrorListeners()
+            recognizer.addErrorListener(RaisingErrorListener())
+        return parser
 
     @property
     def text(self):
         return self._sql
 
     def query(self):
-        return self.parser().query()
+        parser = self.parser()
+        query = parser.query()
+        # Unlike the other rules, this one doesn't extend to the end of the input. A statement may end in a semicolon.
+        stream = parser.getTokenStream()
+        if stream.LT(1).text == ";":
+            stream.consume()
+        if stream.LA(1) != Token.EOF:
+            raise ValueError(
+                f"Unexpected input after the query: {stream.LT(1).text}"
+            )
+        return query
 
     def expression(self):
         return self.parser().standaloneExpression()
-- 
2.43.0


From fac2b112b9eeeb140e2c8f7a0d26d2ae0f3e0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 08/22] fix: reject the parts of a statement that aren't
 represented, and accept every spelling of those that are

---
 treeno/builder/convert.py | 79 +++++++++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 15 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index bf277ca..a1a55d4 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -6,6 +6,7 @@ from decimal import Decimal
 from string import hexdigits
 from typing import Any, Dict, List, Match, Optional, Tuple, Union
 
+from antlr4.ParserRuleContext import ParserRuleContext
 from overrides import overrides
 
 from treeno.datatypes.builder import (
@@ -19,7 +20,7 @@ from treeno.datatypes.builder import (
     varchar,
 )
 from treeno.datatypes.inference import infer_decimal, infer_integral
-from treeno.datatypes.types import FIELDS, TIME, TIMESTAMP, DataType
+from treeno.datatypes.types import DOUBLE, FIELDS, TIME, TIMESTAMP, DataType
 from treeno.expression import (
     AliasedStar,
     AliasedValue,
@@ -130,7 +131,7 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] < args[1]
     elif operator == "<=":
         return args[0] <= args[1]
-    elif operator == "<>":
+    elif operator in ("<>", "!="):
         return args[0] != args[1]
     elif operator == "+":
         if len(args) == 1:
@@ -155,6 +156,9 @@ def apply_operator(operator: str, *args: Value) -> Value:
 
 
 def table_from_qualifiers(qualifiers: List[str]) -> Table:
+    assert (
+        len(qualifiers) <= 3
+    ), f"Too many qualifiers in the table name {'.'.join(qualifiers)}"
     qualifiers = list(reversed(qualifiers))
     name: str = qualifiers[0]
     schema: Optional[str] = nth(qualifiers, 1)
@@ -191,6 +195,17 @@ def decode_unicode_literal(text: str, escape: str) -> str:
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
+    @overrides
+    def visitChildren(self, node: ParserRuleContext) -> Any:
+        # This is the default for all of the rules that we don't handle below. We can only see through a rule that merely
+        # wraps another one, otherwise we'd lose a part of the input.
+        children = list(node.getChildren())
+        if len(children) == 1 and isinstance(children[0], ParserRuleContext):
+            return self.visit(children[0])
+        raise NotImplementedError(
+            f"{type(node).__name__} is currently not supported: {node.getText()}"
+        )
+
     @overrides
     def visitSingleStatement(
         self, ctx: SqlBaseParser.SingleStatementContext
@@ -252,6 +267,16 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
+        if ctx.TIES():
+            raise NotImplementedError("WITH TIES is currently not supported")
+        if (ctx.ORDER() or ctx.offset or ctx.LIMIT() or ctx.FETCH()) and (
+            query.orderby
+            or query.offset is not None
+            or query.limit is not None
+        ):
+            raise NotImplementedError(
+                "Constraining an already constrained query in parentheses is currently not supported"
+            )
         if ctx.ORDER() and ctx.BY():
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
@@ -260,8 +285,15 @@ class ConvertVisitor(SqlBaseVisitor):
         if limit_clause:
             # TODO: Assign this to the query object
             query.limit = self.visit(limit_clause)
+        if ctx.FETCH():
+            # A single row is fetched by default
+            query.limit = self.visit(ctx.fetchFirst) if ctx.fetchFirst else 1
         return query
 
+    @overrides
+    def visitSubquery(self, ctx: SqlBaseParser.SubqueryContext) -> Query:
+        return self.visit(ctx.queryNoWith())
+
     @overrides
     def visitSetOperation(
         self, ctx: SqlBaseParser.SetOperationContext
@@ -306,14 +338,9 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitLimitRowCount(
         self, ctx: SqlBaseParser.LimitRowCountContext
     ) -> Optional[int]:
-        count = ctx.getText()
-        if count.isnumeric():
-            return int(count)
-        else:
-            assert (
-                count == "ALL"
-            ), "LIMIT quantities can either be numeric or ALL"
+        if ctx.ALL():
             return None
+        return self.visit(ctx.rowCount())
 
     @overrides
     def visitQueryTermDefault(
@@ -350,7 +377,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
     ) -> SetQuantifier:
-        return SetQuantifier[ctx.getText()]
+        return SetQuantifier[ctx.getText().upper()]
 
     @overrides
     def visitAnd_(self, ctx: SqlBaseParser.And_Context) -> And:
@@ -522,6 +549,9 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> DataType:
         param_values = [self.visit(param) for param in ctx.typeParameter()]
         type_name = self.visit(ctx.identifier()).upper()
+        assert len(param_values) <= len(
+            FIELDS[type_name]
+        ), f"Too many parameters for {type_name}"
         # We assume the parameters will be passed into here.
         parameters = {
             param.name: val
@@ -569,7 +599,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitIntervalField(
         self, ctx: SqlBaseParser.IntervalFieldContext
     ) -> str:
-        return ctx.getText()
+        return ctx.getText().upper()
 
     @overrides
     def visitIntervalType(
@@ -790,7 +820,7 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> TypeConstructor:
         value = self.visit(ctx.string())
         if ctx.DOUBLE() and ctx.PRECISION():
-            return TypeConstructor(value, data_type=double())
+            return TypeConstructor(value, type_name=DOUBLE)
         # It appears the type constructor is fairly primitive in that it doesn't allow parametrized types, like
         # SELECT DECIMAL(30) '3'
         # which means we can assume it's a generic(but inferred) nonparametrized data type.
@@ -805,6 +835,12 @@ class ConvertVisitor(SqlBaseVisitor):
             not ctx.processingMode()
         ), "Pattern recognition is currently not supported"
 
+        quantifier = ctx.setQuantifier()
+        if quantifier and self.visit(quantifier) != SetQuantifier.ALL:
+            raise NotImplementedError(
+                "DISTINCT arguments are currently not supported"
+            )
+
         # Qualified names usually have multiple parts, but afaik functions aren't namespaced so there should only
         # be one part
         qual_name = self.visit(ctx.qualifiedName())
@@ -891,6 +927,12 @@ class ConvertVisitor(SqlBaseVisitor):
 
     @overrides
     def visitListagg(self, ctx: SqlBaseParser.ListaggContext) -> ListAgg:
+        quantifier = ctx.setQuantifier()
+        if quantifier and self.visit(quantifier) != SetQuantifier.ALL:
+            raise NotImplementedError(
+                "DISTINCT arguments are currently not supported"
+            )
+
         kwargs = {}
         separator = ctx.string()
         if separator:
@@ -1025,6 +1067,9 @@ class ConvertVisitor(SqlBaseVisitor):
         table: Optional[Union[str, Value]] = None
         if primary_expr:
             expr = self.visit(primary_expr)
+            assert not (
+                isinstance(expr, Field) and expr.table
+            ), "Treeno currently only supports stars in the form * or x.*"
             table = expr.name if isinstance(expr, Field) else expr
 
         # TODO: This is a bit hacky right now, but the table reference is derived from a ColumnReference which is a field
@@ -1104,7 +1149,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSampleType(
         self, ctx: SqlBaseParser.SampleTypeContext
     ) -> SampleType:
-        return SampleType[ctx.getText()]
+        return SampleType[ctx.getText().upper()]
 
     @overrides
     def visitPatternRecognition(
@@ -1318,7 +1363,11 @@ class ConvertVisitor(SqlBaseVisitor):
         if groupby:
             query_builder.groupby = self.visit(groupby)
         if ctx.WINDOW():
-            query_builder.window = dict(
+            definitions = [
                 self.visit(window_def) for window_def in ctx.windowDefinition()
-            )
+            ]
+            query_builder.window = dict(definitions)
+            assert len(query_builder.window) == len(
+                definitions
+            ), "Window names must be unique"
         return query_builder
-- 
2.43.0


From 301f06569573397d8b07c2e6fe99160fe8fd04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 09/22] fix: numeric literals print as the type and value they
 hold

---
 treeno/builder/convert.py     | 11 +++++++++--
 treeno/datatypes/inference.py | 17 +++++++----------
 treeno/expression.py          |  9 +++++++--
 treeno/relation.py            |  9 +++++++--
 4 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index a1a55d4..747d3aa 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -3,6 +3,7 @@ Converts from our grammar into a buildable query tree.
 """
 import re
 from decimal import Decimal
+from math import isinf
 from string import hexdigits
 from typing import Any, Dict, List, Match, Optional, Tuple, Union
 
@@ -765,7 +766,10 @@ class ConvertVisitor(SqlBaseVisitor):
             dtype = integer()
 
         if negative:
-            value = -value
+            # Unlike the unary operator, this doesn't round to the precision of the decimal context
+            value = (
+                value.copy_negate() if isinstance(value, Decimal) else -value
+            )
 
         return Literal(value, data_type=dtype)
 
@@ -783,7 +787,10 @@ class ConvertVisitor(SqlBaseVisitor):
         number_string = ctx.DOUBLE_VALUE().getText()
         if ctx.MINUS() is not None:
             number_string = ctx.MINUS().getText() + number_string
-        return Literal(float(number_string), data_type=double())
+        value = float(number_string)
+        if isinf(value):
+            raise ValueError(f"Double {number_string} is out of range")
+        return Literal(value, data_type=double())
 
     @overrides
     def visitBasicStringLiteral(
diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..8a6b974 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -2,6 +2,7 @@
 
 Should not be used in datatypes.types to prevent circular imports
 """
+import math
 from decimal import Decimal
 from typing import Any
 
@@ -25,6 +26,7 @@ def infer_type(value: Any) -> DataType:
     if isinstance(value, int):
         return infer_integral(value)
     if isinstance(value, float):
+        assert math.isfinite(value), f"{value} has no literal"
         return double()
     if isinstance(value, Decimal):
         # NOTE: This is best-effort inference, since the precision of
@@ -51,16 +53,11 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
-    if "." not in str_val:
-        return decimal(precision=len(str_val), scale=0)
-    else:
-        assert str_val.count(".") == 1, f"Malformed decimal str_val {str_val}"
-        decimal_point_pos = str_val.index(".")
-        return decimal(
-            precision=len(str_val) - 1,
-            scale=len(str_val) - decimal_point_pos - 1,
-        )
+    assert decimal_value.is_finite(), f"Malformed decimal {decimal_value}"
+    # The precision is the number of digits, without leading zeros
+    integral, _, fractional = f"{decimal_value.copy_abs():f}".partition(".")
+    digits = integral.lstrip("0") + fractional
+    return decimal(precision=max(len(digits), 1), scale=len(fractional))
 
 
 def infer_timelike_precision(value: str) -> int:
diff --git a/treeno/expression.py b/treeno/expression.py
index 6179708..872d530 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -222,13 +222,18 @@ class Literal(Value):
             ), "Please use wrap_literal to construct a Literal value so the data types are detected"
 
     def sql(self, opts: PrintOptions) -> str:
-        # NOTE: Literal decimals can be directly convertible
-        # through string representation, i.e. 3.14 is DECIMAL(3,2), so we don't need to do anything.
         s = str(self.value)
         if self.value is None:
             s = "NULL"
         if isinstance(self.value, bool):
             s = s.upper()
+        if isinstance(self.value, float):
+            # Without an exponent, it would be a decimal
+            s = s.upper() if "e" in s else f"{s}E0"
+        if isinstance(self.value, Decimal):
+            # Without a decimal point, it would be an integer
+            s = f"{self.value:f}"
+            s = s if "." in s else f"{s}."
         if isinstance(self.value, str):
             # Single quotes to mean literal string
             s = quote_literal(self.value)
diff --git a/treeno/relation.py b/treeno/relation.py
index 4c12dc6..1ed61a7 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -42,6 +42,7 @@ schemas. More information can be found in :class:`Relation`.
 """
 
 import copy
+import re
 from abc import ABC, abstractmethod
 from enum import Enum
 from typing import Dict, List, Optional, Set, Type
@@ -59,7 +60,7 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Value, value_attr
+from treeno.expression import Literal, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -1108,7 +1109,11 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join, TableSample],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.nested_sql(opts)})"
+        percentage_sql = self.percentage.nested_sql(opts)
+        if isinstance(self.percentage, Literal):
+            # The type of a literal makes no difference here, so there's no need for an exponent
+            percentage_sql = re.sub("E0$", "", percentage_sql)
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage_sql})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-- 
2.43.0


From 1ae654dd647d5dda6f7a451ef2e4f28e907ac492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 10/22] fix: visit every child of queries and aggregates

---
 treeno/functions/aggregate.py | 26 +++++++++++++++++++++++++-
 treeno/relation.py            | 17 +++++++++++++++--
 treeno/visitor.py             |  3 +++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index b5a42e5..7658362 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -80,6 +80,15 @@ class AggregateFunction(Function, ABC):
             return call_str + constraint_string
         return call_str
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+        if self.filter_:
+            visitor.visit(self.filter_)
+        if self.window:
+            visitor.visit(self.window)
+
 
 @value_attr
 class UnaryAggregateFunction(AggregateFunction, ABC):
@@ -90,6 +99,7 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -106,6 +116,7 @@ class BinaryStatsFunction(AggregateFunction, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.x)
         visitor.visit(self.y)
+        super().visit(visitor)
 
 
 @value_attr
@@ -265,6 +276,7 @@ class ListAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.overflow_filler:
             visitor.visit(self.overflow_filler)
+        super().visit(visitor)
 
 
 @value_attr
@@ -288,6 +300,7 @@ class Max(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -313,6 +326,7 @@ class MaxBy(AggregateFunction):
         visitor.visit(self.max_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -336,6 +350,7 @@ class Min(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -361,6 +376,7 @@ class MinBy(AggregateFunction):
         visitor.visit(self.min_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -406,6 +422,7 @@ class MapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -434,6 +451,7 @@ class MultiMapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -457,6 +475,7 @@ class ApproxDistinct(AggregateFunction):
         visitor.visit(self.key)
         if self.epsilon:
             visitor.visit(self.epsilon)
+        super().visit(visitor)
 
 
 @value_attr
@@ -478,6 +497,7 @@ class ApproxMostFrequent(AggregateFunction):
         visitor.visit(self.buckets)
         visitor.visit(self.value)
         visitor.visit(self.capacity)
+        super().visit(visitor)
 
 
 @value_attr(init=False)
@@ -517,6 +537,7 @@ class ApproxPercentile(AggregateFunction):
         visitor.visit(self.percentage)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -564,6 +585,7 @@ class NumericHistogram(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -589,11 +611,12 @@ class QDigestAgg(AggregateFunction):
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.buckets)
+        visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
         if self.accuracy:
             visitor.visit(self.accuracy)
+        super().visit(visitor)
 
 
 @value_attr
@@ -617,6 +640,7 @@ class TDigestAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
diff --git a/treeno/relation.py b/treeno/relation.py
index 1ed61a7..932b7ed 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -255,6 +255,13 @@ class Query(Relation, Value, ABC):
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        for named_query in self.with_:
+            visitor.visit(named_query)
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+
 
 @value_attr
 class SetQuery(Query, ABC):
@@ -348,6 +355,7 @@ class SetQuery(Query, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
         visitor.visit(self.right_query)
+        super().visit(visitor)
 
 
 @value_attr
@@ -538,7 +546,8 @@ class SelectQuery(Query):
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.select)
+        for value in self.select:
+            visitor.visit(value)
         if self.from_:
             visitor.visit(self.from_)
         if self.where:
@@ -550,6 +559,7 @@ class SelectQuery(Query):
         if self.window:
             for window in self.window.values():
                 visitor.visit(window)
+        super().visit(visitor)
 
 
 @attr.s
@@ -661,6 +671,7 @@ class TableQuery(Query):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
+        super().visit(visitor)
 
 
 @value_attr
@@ -727,6 +738,7 @@ class ValuesQuery(Query):
     def visit(self, visitor: GenericVisitor) -> None:
         for expr in self.exprs:
             visitor.visit(expr)
+        super().visit(visitor)
 
 
 @attr.s
@@ -929,7 +941,8 @@ class JoinConfig(Sql):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.criteria)
+        if self.criteria:
+            visitor.visit(self.criteria)
 
 
 @attr.s
diff --git a/treeno/visitor.py b/treeno/visitor.py
index b526505..30c35d3 100644
--- a/treeno/visitor.py
+++ b/treeno/visitor.py
@@ -656,3 +656,6 @@ class TreenoVisitor(Generic[T]):
 
     def visit_LTrim(self, node: "LTrim") -> T:
         ...
+
+    def visit_Variable(self, node: "Lambda.Variable") -> T:
+        ...
-- 
2.43.0


From 198884d01502eb11d605de6acca0e9389114cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 11/22] fix: register the whole function catalogue, and keep
 function arguments in their documented order

---
 treeno/builder/convert.py       | 21 +++++++++++++++++++++
 treeno/functions/__init__.py    |  9 +++++++++
 treeno/functions/aggregate.py   | 10 +++++++---
 treeno/functions/common.py      |  1 +
 treeno/functions/conditional.py |  1 +
 treeno/functions/datetime.py    |  2 ++
 6 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 747d3aa..46b464c 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -57,6 +57,10 @@ from treeno.functions.aggregate import (
 )
 from treeno.functions.base import NAMES_TO_FUNCTIONS, Function
 from treeno.functions.common import Concatenate
+from treeno.functions.datetime import (
+    CurrentDate,
+    ParametrizedDateTimeFunction,
+)
 from treeno.functions.session import (
     CurrentCatalog,
     CurrentPath,
@@ -105,6 +109,19 @@ from treeno.window import (
 )
 
 
+# The grammar has dedicated rules for these, hence they aren't reachable as a plain function call
+SPECIAL_FUNCTIONS = (
+    CurrentCatalog,
+    CurrentDate,
+    CurrentPath,
+    CurrentSchema,
+    CurrentUser,
+    ListAgg,
+    Normalize,
+    ParametrizedDateTimeFunction,
+)
+
+
 def query_from_sql(sql: str) -> Query:
     return ConvertVisitor().visitQuery(AST(sql).query())
 
@@ -860,6 +877,10 @@ class ConvertVisitor(SqlBaseVisitor):
             fn_name in NAMES_TO_FUNCTIONS
         ), f"Function name {fn_name} not registered in treeno.functions"
         fn = NAMES_TO_FUNCTIONS[fn_name]
+        if issubclass(fn, SPECIAL_FUNCTIONS):
+            raise NotImplementedError(
+                f"{fn_name} has its own syntax and can't be called by its quoted name"
+            )
 
         kwargs = {}
 
diff --git a/treeno/functions/__init__.py b/treeno/functions/__init__.py
index de45647..adeaa1e 100644
--- a/treeno/functions/__init__.py
+++ b/treeno/functions/__init__.py
@@ -1 +1,10 @@
 # Eagerly load all the functions in order to register them in `Function`'s map
+from treeno.functions import (  # noqa: F401
+    aggregate,
+    common,
+    conditional,
+    datetime,
+    math,
+    session,
+    string,
+)
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 7658362..743a5b1 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -233,10 +233,10 @@ class OverflowFiller(Sql):
 
 @value_attr
 class ListAgg(AggregateFunction):
-    DEFAULT_SEPARATOR: ClassVar[str] = " "
+    DEFAULT_SEPARATOR: ClassVar[str] = ""
     FN_NAME: ClassVar[str] = "LISTAGG"
     value: Value = attr.ib(converter=wrap_literal)
-    separator: str = attr.ib(default=" ")
+    separator: str = attr.ib(default=DEFAULT_SEPARATOR)
     # If overflow filler is None, then raise an error. Otherwise truncate
     # with the appropriate filler string.
     overflow_filler: Optional[OverflowFiller] = attr.ib(default=None)
@@ -527,9 +527,10 @@ class ApproxPercentile(AggregateFunction):
             self.data_type = unknown()
 
     def sql(self, opts: PrintOptions) -> str:
-        values = [self.value, self.percentage]
+        values = [self.value]
         if self.weight:
             values.append(self.weight)
+        values.append(self.percentage)
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -600,6 +601,9 @@ class QDigestAgg(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
+        assert (
+            self.weight is not None or self.accuracy is None
+        ), "Accuracy can only be specified along with the weight"
         self.data_type = qdigest(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 47934c1..cb9d1e8 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -77,6 +77,7 @@ class Concatenate(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.values) > 1, "CONCAT requires at least two values"
         dtypes = [value.data_type for value in self.values]
         type_names = {dtype.type_name for dtype in dtypes}
         # If there's even a single unknown we should give up here.
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 204d0ae..8d0cab8 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -46,6 +46,7 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.values) > 1, "COALESCE requires at least two values"
         dtypes = [
             val.data_type for val in self.values if val.data_type != unknown()
         ]
diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 554d5aa..32a2657 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -187,6 +187,8 @@ class FromUnixtime(Function):
         assert (
             not kwargs
         ), "No keyword arguments allowed for FromUnixTime.from_args"
+        if len(args) == 1:
+            return FromUnixtime(args[0])
         if len(args) == 2:
             return FromUnixtime(args[0], zone=args[1])
         if len(args) == 3:
-- 
2.43.0


From a63716e90949dab1b953d5a0624c37753d4b3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 12/22] fix: common supertypes are symmetric, and data types
 check their parameters

---
 treeno/datatypes/conversions.py | 117 +++++++++++++++++++++-----------
 treeno/datatypes/inference.py   |   9 ++-
 treeno/datatypes/types.py       |  23 ++++++-
 treeno/expression.py            |  17 +++--
 treeno/functions/common.py      |  12 ++--
 treeno/functions/conditional.py |  15 ++--
 6 files changed, 124 insertions(+), 69 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d6f2004..37ac2a2 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,6 +10,9 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
+import functools
+from typing import Any, Dict, Iterable
+
 from treeno.datatypes.builder import (
     array,
     char,
@@ -40,6 +43,7 @@ from treeno.datatypes.types import (
     TIME,
     TIMESTAMP,
     TINYINT,
+    UNKNOWN,
     VARCHAR,
     DataType,
 )
@@ -53,6 +57,9 @@ NUMERIC_TYPES = INTEGRAL_TYPES | FLOAT_TYPES | {DECIMAL}
 STRING_TYPES = {CHAR, VARCHAR}
 # Refer to: https://github.com/trinodb/trino/blob/f382a176760975fec51e89f3dc62060e20420f82/core/trino-spi/src/main/java/io/trino/spi/type/CharType.java#L48
 MAX_CHAR_LENGTH = 65536
+MAX_DECIMAL_PRECISION = 38
+# The precision of TIME and TIMESTAMP when unspecified
+DEFAULT_TIMELIKE_PRECISION = 3
 
 HLL_TYPES = {HLL, P4HLL}
 
@@ -63,30 +70,43 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
     if dtype1 == dtype2:
         return dtype1
     name1, name2 = dtype1.type_name, dtype2.type_name
-    if name1 == name2:
-        return common_same_type(dtype1, dtype2)
-    elif {name1, name2}.issubset(NUMERIC_TYPES):
-        return common_numeric(dtype1, dtype2)
+    if name1 == name2 or {name1, name2}.issubset(NUMERIC_TYPES):
+        return reduce_supertypes([dtype1, dtype2])
     return unknown()
 
 
+def reduce_supertypes(dtypes: Iterable[DataType]) -> DataType:
+    """Returns the common supertype of all of the given dtypes, or unknown if there is none.
+    """
+    try:
+        return functools.reduce(common_supertype, dtypes, unknown())
+    except TypeError:
+        return unknown()
+
+
 def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
     """Returns a common supertype for the given dtypes.
+
+    Raises:
+        TypeError: If there is no type that both can be coerced to.
     """
-    if dtype1.type_name == dtype2.type_name:
-        if dtype1 == dtype2:
-            return dtype1
-        if dtype1.type_name in COMMON_CONVERSION_MAP:
-            common_same_type(dtype1, dtype2)
-        return unknown()
-    elif dtype1.type_name in NUMERIC_TYPES:
-        return common_numeric(dtype1, dtype2)
-    elif dtype1.type_name in STRING_TYPES:
-        return common_string(dtype1, dtype2)
-    elif dtype1.type_name in HLL_TYPES:
-        return common_hll(dtype1, dtype2)
-    elif dtype1.type_name in DATETIME_TYPES:
-        return common_datetime(dtype1, dtype2)
+    name1, name2 = dtype1.type_name, dtype2.type_name
+    if dtype1 == dtype2 or name2 == UNKNOWN:
+        return dtype1
+    # An unknown type can be coerced to any other type
+    if name1 == UNKNOWN:
+        return dtype2
+    if name1 == name2 and name1 in COMMON_CONVERSION_MAP:
+        return common_same_type(dtype1, dtype2)
+    if name1 != name2:
+        for type_names, common_fn in (
+            (NUMERIC_TYPES, common_numeric),
+            (STRING_TYPES, common_string),
+            (HLL_TYPES, common_hll),
+            (DATETIME_TYPES, common_datetime),
+        ):
+            if {name1, name2}.issubset(type_names):
+                return common_fn(dtype1, dtype2)
     raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
 
@@ -104,10 +124,10 @@ def common_datetime(dtype1: DataType, dtype2: DataType) -> DataType:
         dtype1.type_name in DATETIME_TYPES
         and dtype2.type_name in DATETIME_TYPES
     ), f"common_numeric must be called with types in {DATETIME_TYPES}"
-    # date and time are not convertible to each other
-    if {dtype1.type_name, dtype2.type_name} == {DATE, TIME}:
-        return unknown()
-    # Currently there's either TIMESTAMP, TIME or TIMESTAMP, DATE, both of which get promoted to timestamp
+    # time isn't convertible to either of the others
+    if TIME in {dtype1.type_name, dtype2.type_name}:
+        raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
+    # That leaves TIMESTAMP, DATE, which gets promoted to timestamp
     return dtype1 if dtype1.type_name == TIMESTAMP else dtype2
 
 
@@ -183,7 +203,7 @@ def common_numeric(dtype1: DataType, dtype2: DataType) -> DataType:
 def promote_varchar_to_char(varchar_dtype: DataType) -> DataType:
     chars = varchar_dtype.parameters.get("max_chars", None)
     if chars is None:
-        return char()
+        return char(max_chars=MAX_CHAR_LENGTH)
     # VARCHAR can be way bigger than char, so we have to be careful to cap it
     return char(max_chars=min(MAX_CHAR_LENGTH, chars))
 
@@ -223,7 +243,10 @@ def common_decimal(dtype1: DataType, dtype2: DataType) -> DataType:
     s1, s2 = dtype1.parameters["scale"], dtype2.parameters["scale"]
     p1, p2 = dtype1.parameters["precision"], dtype2.parameters["precision"]
     scale = max([s1, s2])
-    return decimal(precision=max([p1 - s1, p2 - s2]) + scale, scale=scale)
+    precision = max([p1 - s1, p2 - s2]) + scale
+    return decimal(
+        precision=min(precision, MAX_DECIMAL_PRECISION), scale=scale
+    )
 
 
 def common_varchar(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -256,10 +279,12 @@ def common_row(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == ROW
     ), "common_row must be called with ROW type only"
-    dtypes = []
-    for t1, t2 in zip(dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]):
-        dtypes.append(common_supertype(t1, t2))
-    return row(dtypes=dtypes)
+    dtypes1, dtypes2 = dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]
+    if len(dtypes1) != len(dtypes2):
+        raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
+    return row(
+        dtypes=[common_supertype(t1, t2) for t1, t2 in zip(dtypes1, dtypes2)]
+    )
 
 
 def common_map(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -281,26 +306,38 @@ def common_array(dtype1: DataType, dtype2: DataType) -> DataType:
     return array(dtype=common_supertype(t1, t2))
 
 
+def common_timelike_parameters(
+    dtype1: DataType, dtype2: DataType
+) -> Dict[str, Any]:
+    parameters = {
+        "timezone": dtype1.parameters["timezone"]
+        or dtype2.parameters["timezone"]
+    }
+    precisions = [
+        dtype.parameters["precision"]
+        for dtype in (dtype1, dtype2)
+        if "precision" in dtype.parameters
+    ]
+    # If either is unspecified then only a precision that's at least the default is able to hold both
+    if len(precisions) == 2 or (
+        precisions and precisions[0] >= DEFAULT_TIMELIKE_PRECISION
+    ):
+        parameters["precision"] = max(precisions)
+    return parameters
+
+
 def common_timestamp(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIMESTAMP
     ), "common_timestamp must be called with TIMESTAMPtype only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return timestamp(timezoned=timezoned, precision=precision)
+    return timestamp(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIME
     ), "common_time must be called with TIME type only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return time(timezoned=timezoned, precision=precision)
+    return time(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -312,8 +349,8 @@ def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
         and dtype1.parameters["to_interval"] == dtype2.parameters["to_interval"]
     ):
         return dtype1
-    # No common subtype in general
-    return unknown()
+    # No common supertype in general
+    raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
 
 COMMON_CONVERSION_MAP = {
diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 8a6b974..07d246b 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -3,6 +3,7 @@
 Should not be used in datatypes.types to prevent circular imports
 """
 import math
+import re
 from decimal import Decimal
 from typing import Any
 
@@ -62,8 +63,6 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
 
 def infer_timelike_precision(value: str) -> int:
     # TODO: Use a datetime util for this at some point. Currently datetime in python only supports microseconds :(
-    # Number of digits past the dot is its precision
-    if "." not in value:
-        return 0
-    # In case we have timezone
-    return len(value.rsplit(".")[-1].split(" ")[0])
+    # Number of digits past the dot is its precision, which may be followed by a timezone
+    match = re.search(r"\.(\d+)", value)
+    return len(match.group(1)) if match else 0
diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..da79471 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -77,6 +77,8 @@ class DataType(Sql):
 
     def __attrs_post_init__(self):
         self.type_name = self.type_name.upper()
+        # We impute the defaults below, which shouldn't be visible to the caller
+        self.parameters = dict(self.parameters)
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
@@ -206,9 +208,24 @@ def validate_row(row: DataType) -> None:
 
 
 def validate_decimal(decimal: DataType) -> None:
-    # TODO: Should we validate the scale as well?
     precision = decimal.parameters["precision"]
-    assert 0 <= precision <= 38, f"Precision {precision} is not supported"
+    scale = decimal.parameters["scale"]
+    assert 1 <= precision <= 38, f"Precision {precision} is not supported"
+    assert (
+        0 <= scale <= precision
+    ), f"Scale {scale} is not supported for precision {precision}"
+
+
+def validate_varchar(varchar: DataType) -> None:
+    max_chars = varchar.parameters.get("max_chars", None)
+    assert (
+        max_chars is None or 0 <= max_chars <= 2147483646
+    ), f"Length of {max_chars} is not supported"
+
+
+def validate_char(char: DataType) -> None:
+    max_chars = char.parameters["max_chars"]
+    assert 0 <= max_chars <= 65536, f"Length of {max_chars} is not supported"
 
 
 def validate_nonparametric(nonparametric: DataType) -> None:
@@ -301,4 +318,6 @@ VALIDATORS: Dict[str, Callable[[DataType], None]] = {
     ROW: validate_row,
     INTERVAL: validate_interval,
     DECIMAL: validate_decimal,
+    VARCHAR: validate_varchar,
+    CHAR: validate_char,
 }
diff --git a/treeno/expression.py b/treeno/expression.py
index 872d530..bb40e8f 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -50,7 +50,10 @@ from treeno.datatypes.builder import (
     timestamp,
     unknown,
 )
-from treeno.datatypes.conversions import get_arithmetic_type
+from treeno.datatypes.conversions import (
+    get_arithmetic_type,
+    reduce_supertypes,
+)
 from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
@@ -783,7 +786,9 @@ class Array(Expression):
         assert len(self.values), "values must be a non-empty list for Array"
         # TODO: This is currently incorrect. We have to widen the data type depending on the largest precision we have
         # i.e. TYPEOF(ARRAY[CHAR '3'] || '345') yields array(char(3))
-        self.data_type = array(dtype=self.values[0].data_type)
+        self.data_type = array(
+            dtype=reduce_supertypes(value.data_type for value in self.values)
+        )
 
     @classmethod
     def from_values(cls, *vals: Any) -> "Array":
@@ -891,7 +896,7 @@ class TypeConstructor(Expression):
             self.data_type = timestamp(
                 precision=infer_timelike_precision(self.value)
             )
-        if self.type_name == type_consts.TIME:
+        elif self.type_name == type_consts.TIME:
             self.data_type = time(
                 precision=infer_timelike_precision(self.value)
             )
@@ -1050,7 +1055,11 @@ class Case(Expression):
         assert len(
             self.branches
         ), "There must be at least one WHEN condition in a CASE"
-        self.data_type = self.branches[0].data_type
+        self.data_type = reduce_supertypes(
+            branch.data_type
+            for branch in self.branches
+            + ([self.else_] if self.else_ is not None else [])
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index cb9d1e8..f80c79a 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -1,7 +1,6 @@
 """This module contains functions that belong to multiple categories. For example,
 concat can be used to concat strings, varbinary, arrays, etc.
 """
-import functools
 from typing import Any, ClassVar, List, Type
 
 import attr
@@ -10,9 +9,10 @@ from treeno.base import GenericVisitor, PrintOptions
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import array, char, unknown, varbinary, varchar
 from treeno.datatypes.conversions import (
+    MAX_CHAR_LENGTH,
     STRING_TYPES,
-    common_supertype,
     promote_varchar_to_char,
+    reduce_supertypes,
 )
 from treeno.expression import (
     OPERATOR_PRECEDENCE,
@@ -47,11 +47,7 @@ def _get_array_concat_type(
         dtype.parameters["dtype"] if num_layers == max_layers else dtype
         for dtype, num_layers in zip(dtypes, num_layers)
     ]
-    return array(
-        dtype=functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), stripped_dtypes
-        )
-    )
+    return array(dtype=reduce_supertypes(stripped_dtypes))
 
 
 def _get_string_concat_type(
@@ -68,7 +64,7 @@ def _get_string_concat_type(
             if dtype.type_name != type_consts.CHAR:
                 dtype = promote_varchar_to_char(dtype)
             max_chars += dtype.parameters["max_chars"]
-        return char(max_chars=max_chars)
+        return char(max_chars=min(max_chars, MAX_CHAR_LENGTH))
 
 
 @value_attr
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 8d0cab8..31f0608 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -1,11 +1,9 @@
-import functools
 from typing import Any, ClassVar, List, Optional, Type
 
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions
-from treeno.datatypes.builder import unknown
-from treeno.datatypes.conversions import common_supertype
+from treeno.datatypes.conversions import reduce_supertypes
 from treeno.expression import Value, value_attr, wrap_literal, wrap_literal_list
 from treeno.functions.base import Function, GenericFunction
 
@@ -21,8 +19,8 @@ class If(Function):
 
     def __attrs_post_init__(self) -> None:
         if self.false_value is not None:
-            self.data_type = common_supertype(
-                self.true_value.data_type, self.false_value.data_type
+            self.data_type = reduce_supertypes(
+                [self.true_value.data_type, self.false_value.data_type]
             )
         else:
             self.data_type = self.true_value.data_type
@@ -47,11 +45,8 @@ class Coalesce(Function):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.values) > 1, "COALESCE requires at least two values"
-        dtypes = [
-            val.data_type for val in self.values if val.data_type != unknown()
-        ]
-        self.data_type = functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), dtypes
+        self.data_type = reduce_supertypes(
+            val.data_type for val in self.values
         )
 
     @classmethod
-- 
2.43.0


From 3660e411c514e8a138ee03fecb6fa2471c3adc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 13/22] fix: types of aggregates and datetime functions follow
 their signatures

---
 treeno/functions/aggregate.py | 71 ++++++++++++++++++++++++++++++-----
 treeno/functions/datetime.py  | 12 +++---
 2 files changed, 67 insertions(+), 16 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 743a5b1..84f9145 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -10,6 +10,7 @@ from treeno.datatypes.builder import (
     array,
     bigint,
     boolean,
+    decimal,
     double,
     hll,
     map_,
@@ -19,6 +20,7 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
+from treeno.datatypes.conversions import INTEGRAL_TYPES
 from treeno.expression import Star, Value, value_attr, wrap_literal
 from treeno.functions.base import FUNCTIONS_TO_NAMES, Function
 from treeno.orderby import OrderTerm
@@ -124,7 +126,16 @@ class Sum(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "SUM"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # The sum is wide enough to hold the sums of many values
+        dtype = self.value.data_type
+        if dtype.type_name in INTEGRAL_TYPES:
+            self.data_type = bigint()
+        elif dtype.type_name == type_consts.DECIMAL:
+            self.data_type = decimal(
+                precision=38, scale=dtype.parameters["scale"]
+            )
+        else:
+            self.data_type = dtype
 
 
 @value_attr
@@ -148,7 +159,11 @@ class Avg(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "AVG"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = double()
+        # Averages are of the same type as their input, other than for integral types
+        dtype = self.value.data_type
+        self.data_type = (
+            double() if dtype.type_name in INTEGRAL_TYPES else dtype
+        )
 
 
 @value_attr
@@ -288,7 +303,11 @@ class Max(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # Asking for a number of values gives an array of them
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
+        else:
+            self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -313,7 +332,11 @@ class MaxBy(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # Asking for a number of values gives an array of them
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
+        else:
+            self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.max_by]
@@ -338,7 +361,11 @@ class Min(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # Asking for a number of values gives an array of them
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
+        else:
+            self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -363,7 +390,11 @@ class MinBy(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # Asking for a number of values gives an array of them
+        if self.num_values is not None:
+            self.data_type = array(dtype=self.value.data_type)
+        else:
+            self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.min_by]
@@ -554,9 +585,10 @@ class Merge(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "MERGE"
 
     def __attrs_post_init__(self) -> None:
-        if (
-            self.value.data_type.type_name == type_consts.TDIGEST
-            or self.value.data_type.type_name == type_consts.QDIGEST
+        if self.value.data_type.type_name in (
+            type_consts.TDIGEST,
+            type_consts.QDIGEST,
+            type_consts.UNKNOWN,
         ):
             self.data_type = self.value.data_type
         else:
@@ -681,35 +713,56 @@ class RegrSlope(BinaryStatsFunction):
 class Skewness(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "SKEWNESS"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class StdDev(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "STDDEV"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class StdDevPop(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "STDDEV_POP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class StdDevSamp(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "STDDEV_SAMP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class Variance(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "VARIANCE"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class VarPop(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "VAR_POP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 @value_attr
 class VarSamp(UnaryAggregateFunction):
     FN_NAME: ClassVar[str] = "VAR_SAMP"
 
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
 
 # TODO: Add reduce()
diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 32a2657..51881a3 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -58,7 +58,7 @@ class CurrentTime(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIME"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = time(precision=self.precision)
+        self.data_type = time(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -66,7 +66,9 @@ class CurrentTimestamp(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIMESTAMP"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = timestamp(precision=self.precision)
+        self.data_type = timestamp(
+            precision=self.precision, timezone=True
+        )
 
 
 @value_attr
@@ -196,11 +198,7 @@ class FromUnixtime(Function):
         raise ValueError(f"Unrecognized arguments {args} and {kwargs}")
 
     def __attrs_post_init__(self) -> None:
-        dtype = self.value.data_type
-        if dtype.type_name == type_consts.TIMESTAMP:
-            self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
-            )
+        self.data_type = timestamp(precision=3, timezone=True)
 
         if self.zone:
             assert (
-- 
2.43.0


From e966b8aa55bcfc8394b032c6b0f4bcf53e17e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 14/22] fix: the command line formats without resolving, and
 shows dictionaries and unnamed columns

---
 treeno/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..a21f69a 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -31,8 +31,6 @@ def get_sql_object(construct_type: SqlConstruct, sql: str) -> Sql:
     sql_object: Sql
     if construct_type == SqlConstruct.QUERY:
         sql_object = query_from_sql(sql)
-        # Resolve a query since it is much more complicated
-        sql_object.resolve(Schema.empty_schema())
     elif construct_type == SqlConstruct.EXPRESSION:
         sql_object = expression_from_sql(sql)
     elif construct_type == SqlConstruct.TYPE:
@@ -83,7 +81,7 @@ def treeify(node: Any) -> Any:
     if is_dictlike(node):
         return Tree(
             f"<{type(node).__name__}>",
-            [Tree(k, treeify(v)) for k, v in node.items()],
+            [Tree(k, [treeify(v)]) for k, v in node.items()],
         )
     if not isinstance(node, Sql):
         return str(node)
@@ -101,6 +99,9 @@ def treeify(node: Any) -> Any:
 @app.command()
 def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     sql_obj = get_sql_object(construct_type, sql)
+    if construct_type == SqlConstruct.QUERY:
+        # Resolve a query since it is much more complicated
+        sql_obj.resolve(Schema.empty_schema())
     tree = treeify(sql_obj)
     sio = StringIO()
     if not draw:
@@ -123,7 +124,7 @@ def schema(sql: str) -> None:
     for idx, field in enumerate(schema.fields):
         field_string = (
             typer.style("<none>", fg=typer.colors.RED, bold=True)
-            if field is None
+            if field.name is None
             else field.name
         )
         dtype_string = (
-- 
2.43.0


From 946592050113d461dcf974f0aa802290d6109dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 15/22] fix: resolve columns by their scope, and compute the
 output columns of every relation

---
 treeno/datatypes/resolve.py | 149 ++++++++-----
 treeno/relation.py          | 410 ++++++++++++++++++++++++------------
 2 files changed, 377 insertions(+), 182 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 5419d9a..69985b4 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -1,71 +1,115 @@
 import copy
-from typing import Any, Dict
+from typing import Any, Dict, List, Optional
 
 import attr
 
 from treeno.base import Sql
 from treeno.datatypes.builder import row
-from treeno.datatypes.types import DataType
-from treeno.expression import Field, Star
-from treeno.relation import Query, Schema
+from treeno.datatypes.types import ROW, DataType
+from treeno.expression import Field, Star, Value
+from treeno.relation import Query, Schema, SchemaField, row_types
 from treeno.util import children, is_dictlike, is_listlike
 
 
-def _make_field(field: Field, schema: Schema) -> Field:
-    # If field's table is a whole subquery, it would belong solely
-    # to that subquery and not the relation we're dealing with.
-    if isinstance(field.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
+def _has_source(field: SchemaField, table: str) -> bool:
+    return field.source.identifier() == table
 
-    matching_fields = []
-    for f in schema.fields:
-        if (
-            f.name == field.name
-            and field.table is None
-            or field.table in schema.relation_ids
-        ):
-            matching_fields.append(f)
 
-    # If the schema didn't include the field, it should have an unknown type
-    if not len(matching_fields):
-        return copy.deepcopy(field)
+def _make_field(field: Field, schema: Schema, tables: Schema) -> Field:
+    # The field of a row that's not a column
+    if isinstance(field.table, Value):
+        return attr.evolve(
+            field, table=resolve_fields(field.table, schema, tables)
+        )
 
-    # In the case of there being two identical names, we need there to be only 1 unique field for it.
-    if field.table is None:
-        assert (
-            len(matching_fields) == 1
-        ), f"Expected 1 global field matching name {field.name}, got {len(matching_fields)}"
-        dtype = matching_fields[0].data_type
-    else:
-        # Find the right table by filtering 1 more time
-        filtered_fields = [
-            f for f in matching_fields if f.source.identifier() == field.table
+    # Scopes further out are hidden by the ones inside of them
+    scope: Optional[Schema] = schema
+    while scope is not None:
+        matching_fields = [
+            f
+            for f in scope.fields
+            if f.name == field.name
+            and (field.table is None or _has_source(f, field.table))
         ]
         assert (
-            len(filtered_fields) == 1
-        ), f"Two ambiguous fields with same name and table found {schema}"
-        dtype = filtered_fields[0].data_type
-    return Field(name=field.name, table=field.table, data_type=dtype)
+            len(matching_fields) <= 1
+        ), f"Expected 1 field matching {field}, got {len(matching_fields)}"
+        if matching_fields:
+            return Field(
+                name=field.name,
+                table=field.table,
+                data_type=copy.deepcopy(matching_fields[0].data_type),
+            )
+        # The column could be one that isn't known
+        if field.table in scope.relation_ids or (
+            field.table is None and scope.partial_ids
+        ):
+            break
+        scope = scope.outer_scope
 
+    # If the schema didn't include the field, it should have an unknown type
+    return copy.deepcopy(field)
 
-def _make_star(star: Star, schema: Schema) -> Star:
-    if isinstance(star.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
-    matching_fields = schema.fields
-    if star.table is not None:
-        matching_fields = [
-            f for f in matching_fields if f.source.identifier() == star.table
-        ]
-    dtype = row(dtypes=[f.data_type for f in matching_fields])
-    return Star(table=star.table, data_type=dtype)
 
+def resolve_star(star: Star, schema: Schema) -> Schema:
+    """Returns the columns that the star stands for"""
+    if star.table is None:
+        return schema
+    if isinstance(star.table, Value):
+        # All of the fields of a row
+        dtype = star.table.data_type
+        if dtype.type_name != ROW:
+            return Schema([], set(), partial_ids={None})
+        return Schema(
+            [SchemaField(None, None, field) for field in row_types(dtype)],
+            set(),
+        )
+    scope: Optional[Schema] = schema
+    while scope is not None and star.table not in scope.relation_ids:
+        scope = scope.outer_scope
+    if scope is None:
+        return Schema([], set(), partial_ids={None})
+    return Schema(
+        [f for f in scope.fields if _has_source(f, star.table)],
+        {star.table},
+        partial_ids=scope.partial_ids & {star.table},
+    )
+
+
+def _make_star(star: Star, schema: Schema, tables: Schema) -> Star:
+    if isinstance(star.table, Value):
+        star = attr.evolve(
+            star, table=resolve_fields(star.table, schema, tables)
+        )
+    columns = resolve_star(star, schema)
+    if columns.partial_ids:
+        return Star(table=star.table)
+    return Star(
+        table=star.table,
+        data_type=row(dtypes=[f.data_type for f in columns.fields]),
+    )
 
-def resolve_fields(node: Any, schema: Schema) -> Any:
+
+def resolve_fields(
+    node: Any, schema: Schema, tables: Optional[Schema] = None
+) -> Any:
+    """Returns a copy of the node where the fields have the types of the columns they refer to
+
+    Args:
+        node: The node that contains fields.
+        schema: The columns that the fields can refer to.
+        tables: The tables that subqueries can refer to.
+    """
+    if tables is None:
+        tables = Schema.empty_schema()
     if is_listlike(node):
-        return type(node)(resolve_fields(child, schema) for child in node)
+        return type(node)(
+            resolve_fields(child, schema, tables) for child in node
+        )
     if is_dictlike(node):
         return type(node)(
-            (key, resolve_fields(child, schema)) for key, child in node.items()
+            (key, resolve_fields(child, schema, tables))
+            for key, child in node.items()
         )
     # Everything that includes Sql members must be Sql itself, even if it doesn't have a non-throwing sql() function
     # (see JoinConfig for example)
@@ -75,10 +119,15 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     if isinstance(node, DataType):
         return copy.deepcopy(node)
     if isinstance(node, Field):
-        return _make_field(node, schema)
+        return _make_field(node, schema, tables)
     if isinstance(node, Star):
-        return _make_star(node, schema)
+        return _make_star(node, schema, tables)
+    # Subqueries have a scope of their own
+    if isinstance(node, Query):
+        query = copy.deepcopy(node)
+        query.resolve(tables, schema)
+        return query
     changes: Dict[str, Any] = {}
     for k, v in children(node).items():
-        changes[k] = resolve_fields(v, schema)
+        changes[k] = resolve_fields(v, schema, tables)
     return attr.evolve(node, **changes)
diff --git a/treeno/relation.py b/treeno/relation.py
index 932b7ed..1bcb4ee 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -57,10 +57,10 @@ from treeno.base import (
     Sql,
 )
 from treeno.datatypes import types as type_consts
-from treeno.datatypes.builder import row, unknown
-from treeno.datatypes.conversions import common_supertype
+from treeno.datatypes.builder import bigint, row, unknown
+from treeno.datatypes.conversions import reduce_supertypes
 from treeno.datatypes.types import DataType
-from treeno.expression import Literal, Value, value_attr
+from treeno.expression import AliasedStar, Literal, Star, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -96,7 +96,9 @@ class Relation(Sql, ABC):
         return None
 
     @abstractmethod
-    def resolve(self, existing_schema: "Schema") -> "Schema":
+    def resolve(
+        self, existing_schema: "Schema", outer_scope: Optional["Schema"] = None
+    ) -> "Schema":
         """Resolves the current relation's schema with supplemental schema information.
 
         This function is used to resolve missing types in queries. The user can pass in existing_schemas to
@@ -105,7 +107,8 @@ class Relation(Sql, ABC):
         more information refer to :class:`Schema`.
 
         Args:
-            existing_schema: Schema with a partial list of fields to resolve the current field's schema
+            existing_schema: Schema with a partial list of fields of the tables that can be referred to by name
+            outer_scope: Schema with the columns of the enclosing scopes, which only expressions can refer to
         Returns:
             A new schema for the current relation
         """
@@ -146,10 +149,19 @@ class Schema:
         Relation_ids: A set of relations used to denote the existence of a relation included in the schema.
             This set can contain relations that contains no fields - e.g. for a table with an undefined schema,
             the fields would be empty but the relation would still be in the set
+        outer_scope: The columns of the enclosing scopes, for columns that aren't in this schema
+        partial_ids: The relations that have more columns than the ones that are known, where None stands for the
+            relations that have no identifier
     """
 
     fields: List[SchemaField] = attr.ib()
     relation_ids: Set[str] = attr.ib()
+    outer_scope: Optional["Schema"] = attr.ib(
+        default=None, eq=False, repr=False
+    )
+    partial_ids: Set[Optional[str]] = attr.ib(
+        factory=set, eq=False, repr=False
+    )
 
     @classmethod
     def empty_schema(cls) -> "Schema":
@@ -179,7 +191,48 @@ class Schema:
             if f not in fields:
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
-        return Schema(fields, relation_ids)
+        return Schema(
+            fields,
+            relation_ids,
+            partial_ids=self.partial_ids | another_schema.partial_ids,
+        )
+
+    def shadow(self, another_schema: "Schema") -> "Schema":
+        """Adds the relations of another schema, which hide relations with the same identifier."""
+        fields = [
+            f
+            for f in self.fields
+            if f.source.identifier() not in another_schema.relation_ids
+        ]
+        return Schema(
+            fields + another_schema.fields,
+            self.relation_ids | another_schema.relation_ids,
+            partial_ids=(self.partial_ids - another_schema.relation_ids)
+            | another_schema.partial_ids,
+        )
+
+    def rename(self, names: List[str]) -> "Schema":
+        """Names the columns. If they aren't all known, then we can't tell which one each of the names is for."""
+        if self.partial_ids:
+            return Schema(
+                [SchemaField(name, None, unknown()) for name in names], set()
+            )
+        assert len(self.fields) == len(
+            names
+        ), f"Expected {len(self.fields)} column aliases, got {len(names)}"
+        return Schema(
+            [attr.evolve(f, name=name) for f, name in zip(self.fields, names)],
+            set(),
+        )
+
+    def with_source(self, source: Relation) -> "Schema":
+        """Returns the columns as the ones of another relation, which is the only one they can be referred to by"""
+        identifier = source.identifier()
+        return Schema(
+            [attr.evolve(f, source=source) for f in self.fields],
+            relation_ids=set() if identifier is None else {identifier},
+            partial_ids={identifier} if self.partial_ids else set(),
+        )
 
 
 @value_attr
@@ -214,7 +267,9 @@ class Query(Relation, Value, ABC):
             )
         }
 
-    def _resolve_with(self) -> Schema:
+    def _resolve_with(
+        self, existing_schema: Schema, outer_scope: Optional[Schema]
+    ) -> Schema:
         """Resolves the queries in WITH statement with context that carries over.
 
         It's important to note that CTE's can actually refer to previously defined CTE's using FROM:
@@ -229,11 +284,11 @@ class Query(Relation, Value, ABC):
 
         In the above example, ``b`` is able to refer to ``a`` because it's defined before in the WITH sequence.
         """
-        merging_schema = Schema.empty_schema()
         for w in self.with_:
-            new_schema = w.resolve(merging_schema)
-            merging_schema = merging_schema.merge(new_schema)
-        return merging_schema
+            existing_schema = existing_schema.shadow(
+                w.resolve(existing_schema, outer_scope)
+            )
+        return existing_schema
 
     def _constraint_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of a couple output-filtering constraints to the query.
@@ -298,26 +353,7 @@ class SetQuery(Query, ABC):
         if left_type == unknown() or right_type == unknown():
             return unknown()
 
-        # The subqueries not being row-like is possible for a table/subquery that only has 1 column
-        left_row_like = left_type.type_name == type_consts.ROW
-        right_row_like = right_type.type_name == type_consts.ROW
-        assert (
-            left_row_like == right_row_like
-        ), f"Either both types are ROWs or neither are. Found {left_type} and {right_type}"
-
-        if not left_row_like:
-            return common_supertype(left_type, right_type)
-
-        # .. todo:: Redundant after previous assertion
-        assert (
-            left_row_like and right_row_like
-        ), "Input data types for query set operations must be ROW"
-        dtypes = []
-        for t1, t2 in zip(
-            left_type.parameters["dtypes"], right_type.parameters["dtypes"]
-        ):
-            dtypes.append(common_supertype(t1, t2))
-        return row(dtypes=dtypes)
+        return reduce_supertypes([left_type, right_type])
 
     def _to_string(self, set_type: str, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
@@ -336,21 +372,35 @@ class SetQuery(Query, ABC):
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
 
-    def resolve(self, existing_schema: Schema) -> Schema:
-        left_schema = self.left_query.resolve(
-            maybe_prune_schema(self.left_query, existing_schema)
-        )
-        self.right_query.resolve(
-            maybe_prune_schema(self.right_query, existing_schema)
-        )
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
+        existing_schema = self._resolve_with(existing_schema, outer_scope)
+        left_schema = self.left_query.resolve(existing_schema, outer_scope)
+        right_schema = self.right_query.resolve(existing_schema, outer_scope)
+        self.data_type = self._compute_data_type()
         # The column names and such are always taken from the left schema.
-        schema_fields = []
-        for schema_field in left_schema.fields:
-            # Basically take the schema that belonged to left schema and re-assign it to this set query
-            schema_fields.append(
-                SchemaField(schema_field.name, self, schema_field.data_type)
-            )
-        return Schema(schema_fields, relation_ids=left_schema.relation_ids)
+        if left_schema.partial_ids or right_schema.partial_ids:
+            # The columns can't be paired up
+            data_types = [unknown() for _ in left_schema.fields]
+        else:
+            assert len(left_schema.fields) == len(
+                right_schema.fields
+            ), "Queries of a set operation must have the same number of columns"
+            data_types = [
+                reduce_supertypes([left.data_type, right.data_type])
+                for left, right in zip(left_schema.fields, right_schema.fields)
+            ]
+        # Basically take the schema that belonged to left schema and re-assign it to this set query
+        schema_fields = [
+            SchemaField(schema_field.name, self, data_type)
+            for schema_field, data_type in zip(left_schema.fields, data_types)
+        ]
+        return Schema(
+            schema_fields,
+            relation_ids=set(),
+            partial_ids={None} if left_schema.partial_ids else set(),
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
@@ -379,6 +429,7 @@ class IntersectQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"INTERSECT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("INTERSECT", opts)
@@ -405,6 +456,7 @@ class ExceptQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"EXCEPT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("EXCEPT", opts)
@@ -477,37 +529,58 @@ class SelectQuery(Query):
         assert len(
             self.select
         ), "Must select at least one value for SELECT clause"
-        self.data_type = self._compute_data_type()
+        # A star could stand for any number of columns
+        if not any(isinstance(val, (Star, AliasedStar)) for val in self.select):
+            self.data_type = self._compute_data_type(
+                [val.data_type for val in self.select]
+            )
 
-    def _compute_data_type(self) -> DataType:
+    def _compute_data_type(self, dtypes: List[DataType]) -> DataType:
         # Special case: If the select clause only has one output element, it's not a row.
-        if len(self.select) == 1:
-            return self.select[0].data_type
-        return row(dtypes=[val.data_type for val in self.select])
+        if len(dtypes) == 1:
+            return dtypes[0]
+        return row(dtypes=dtypes)
 
-    def resolve(self, existing_schema: Schema) -> Schema:
-        from treeno.datatypes.resolve import resolve_fields
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
+        from treeno.datatypes.resolve import resolve_fields, resolve_star
 
-        # Pass in existing relations from CTE into from_ as long as from_ is not in its own namespace i.e. a subquery.
+        existing_schema = self._resolve_with(existing_schema, outer_scope)
+        scope = Schema.empty_schema()
         if self.from_ is not None:
-            existing_schema = existing_schema.merge(self._resolve_with())
-            schema = self.from_.resolve(
-                maybe_prune_schema(self.from_, existing_schema)
-            )
-            self.select = [resolve_fields(val, schema) for val in self.select]
-            self.data_type = self._compute_data_type()
+            scope = self.from_.resolve(existing_schema, outer_scope)
+        scope = attr.evolve(scope, outer_scope=outer_scope)
+        self.select = [
+            resolve_fields(val, scope, existing_schema) for val in self.select
+        ]
 
-        schema_fields = []
+        # All schema fields have the source to the current object
+        schema = Schema.empty_schema()
         for value in self.select:
-            # All schema fields have the source to the current object
-            schema_fields.append(
+            star = value.star if isinstance(value, AliasedStar) else value
+            if isinstance(star, Star):
+                columns = resolve_star(star, scope)
+                if isinstance(value, AliasedStar):
+                    columns = columns.rename(value.aliases)
+                schema.fields += columns.with_source(self).fields
+                if columns.partial_ids:
+                    schema.partial_ids.add(None)
+                continue
+            schema.fields.append(
                 SchemaField(
                     name=value.identifier(),
                     source=self,
                     data_type=value.data_type,
                 )
             )
-        return Schema(schema_fields, relation_ids=set())
+        if schema.partial_ids:
+            self.data_type = unknown()
+        else:
+            self.data_type = self._compute_data_type(
+                [f.data_type for f in schema.fields]
+            )
+        return schema
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -604,23 +677,45 @@ class Table(Relation):
             ), "If a catalog is specified, a schema must be specified as well"
         if self.name not in self._column_schema.relation_ids:
             self._column_schema.relation_ids.add(self.name)
+        if not self._column_schema.fields:
+            self._column_schema.partial_ids.add(self.name)
 
     def sql(self, opts: PrintOptions) -> str:
         return chain_identifiers(self.catalog, self.schema, self.name)
 
-    def resolve(self, existing_schema: Schema) -> Schema:
+    def _is_source(self, source: Relation) -> bool:
+        """Whether the source of a field is the relation that this table refers to"""
+        if source.identifier() != self.identifier():
+            return False
+        if self.schema is None:
+            return True
+        # Only tables are qualified, and the schema can leave out qualifiers
+        return (
+            isinstance(source, Table)
+            and source.schema in (None, self.schema)
+            and (
+                self.catalog is None
+                or source.catalog in (None, self.catalog)
+            )
+        )
+
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
         # If this schema isn't defined
         if self.name not in existing_schema.relation_ids:
             return self._column_schema
         # Otherwise, the schema IS defined e.g. by a previous CTE
         schema_fields = [
-            f
-            for f in existing_schema.fields
-            if f.source.identifier() == self.identifier()
+            f for f in existing_schema.fields if self._is_source(f.source)
         ]
         self._column_schema = Schema(
-            schema_fields, relation_ids={self.identifier()}
+            schema_fields,
+            relation_ids={self.identifier()},
+            partial_ids=existing_schema.partial_ids & {self.identifier()},
         )
+        if not schema_fields:
+            self._column_schema.partial_ids.add(self.identifier())
         return self._column_schema
 
     def identifier(self) -> Optional[str]:
@@ -650,9 +745,11 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        if self.table._column_schema == Schema.empty_schema():
-            return row(dtypes=[f.data_type for f in self.table._column_schema])
-        return unknown()
+        dtypes = [f.data_type for f in self.table._column_schema.fields]
+        if self.table._column_schema.partial_ids:
+            return unknown()
+        # Special case: A table that only has one column isn't a row.
+        return dtypes[0] if len(dtypes) == 1 else row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -661,13 +758,15 @@ class TableQuery(Query):
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
 
-    def resolve(self, existing_schema: Schema) -> Schema:
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
         # We not only need to take the existing schema, but we also need to shadow some fields with the
         # local WITH clause
-        with_schema = self._resolve_with()
-        table_schema = self.table.resolve(with_schema)
+        existing_schema = self._resolve_with(existing_schema, outer_scope)
+        table_schema = self.table.resolve(existing_schema)
         self.data_type = self._compute_data_type()
-        return table_schema
+        return table_schema.with_source(self)
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
@@ -714,11 +813,7 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
-        for val in self.exprs:
-            if self.data_type == unknown():
-                self.data_type = val.data_type
-            else:
-                self.data_type = common_supertype(self.data_type, val.data_type)
+        self.data_type = reduce_supertypes(val.data_type for val in self.exprs)
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
@@ -729,10 +824,25 @@ class ValuesQuery(Query):
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
 
-    def resolve(self, existing_schema: Schema) -> Schema:
-        # ..todo:: Does ValuesQuery dereference anything by itself?
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
+        from treeno.datatypes.resolve import resolve_fields
+
+        existing_schema = self._resolve_with(existing_schema, outer_scope)
+        scope = Schema([], relation_ids=set(), outer_scope=outer_scope)
+        self.exprs = [
+            resolve_fields(val, scope, existing_schema) for val in self.exprs
+        ]
+        self.data_type = reduce_supertypes(val.data_type for val in self.exprs)
+        # Each expression is a row of one or more columns
+        rows = [row_types(val.data_type) for val in self.exprs]
         return Schema(
-            [SchemaField(None, self, val.data_type) for val in self.exprs]
+            [
+                SchemaField(None, self, reduce_supertypes(dtypes))
+                for dtypes in zip(*rows)
+            ],
+            relation_ids=set(),
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -788,21 +898,13 @@ class AliasedRelation(Relation):
         alias_str += f" AS {relation_string(self.relation, opts)}"
         return alias_str
 
-    def resolve(self, existing_schema: Schema) -> Schema:
-        relation_schema = self.relation.resolve(
-            maybe_prune_schema(self.relation, existing_schema)
-        )
-        new_schema_fields = []
-        for idx, schema_field in enumerate(relation_schema.fields):
-            field_name = (
-                self.column_aliases[idx]
-                if self.column_aliases
-                else schema_field.name
-            )
-            new_schema_fields.append(
-                SchemaField(field_name, self, schema_field.data_type)
-            )
-        return Schema(new_schema_fields, relation_ids={self.identifier()})
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
+        schema = self.relation.resolve(existing_schema, outer_scope)
+        if self.column_aliases:
+            schema = schema.rename(self.column_aliases)
+        return schema.with_source(self)
 
     def identifier(self) -> Optional[str]:
         return self.alias
@@ -976,19 +1078,50 @@ class Join(Relation):
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
 
-    def resolve(self, existing_schema: Schema) -> Schema:
-        pruned_left_arg = maybe_prune_schema(
-            self.left_relation, existing_schema
-        )
-        left_schema = self.left_relation.resolve(pruned_left_arg)
-        existing_schema = existing_schema.merge(left_schema)
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
+        left_schema = self.left_relation.resolve(existing_schema, outer_scope)
         # Pass in the namespace of the first relation to the second. This is important for sql statemnts like
         # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first
-        pruned_right_arg = maybe_prune_schema(
-            self.right_relation, existing_schema
+        if is_lateral(self.right_relation):
+            outer_scope = attr.evolve(left_schema, outer_scope=outer_scope)
+        right_schema = self.right_relation.resolve(existing_schema, outer_scope)
+        left_fields, right_fields = left_schema.fields, right_schema.fields
+        # The columns that are joined on are a single column that's before all of the other ones, and it doesn't
+        # belong to either of the relations
+        column_names: List[str] = []
+        if isinstance(self.config.criteria, JoinUsingCriteria):
+            column_names = self.config.criteria.column_names
+        elif self.config.natural:
+            right_names = {f.name for f in right_fields}
+            column_names = [
+                f.name
+                for f in left_fields
+                if f.name is not None and f.name in right_names
+            ]
+        joined_fields = []
+        for name in column_names:
+            dtypes = []
+            for fields in (left_fields, right_fields):
+                matching = [f.data_type for f in fields if f.name == name]
+                assert (
+                    len(matching) <= 1
+                ), f"Column {name} to join on is ambiguous"
+                dtypes += matching
+            joined_fields.append(
+                SchemaField(name, self, reduce_supertypes(dtypes))
+            )
+        return Schema(
+            joined_fields
+            + [
+                f
+                for f in left_fields + right_fields
+                if f.name not in column_names
+            ],
+            left_schema.relation_ids | right_schema.relation_ids,
+            partial_ids=left_schema.partial_ids | right_schema.partial_ids,
         )
-        right_schema = self.right_relation.resolve(pruned_right_arg)
-        return left_schema.merge(right_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_relation)
@@ -1011,7 +1144,8 @@ class Unnest(Relation):
              2
 
     Attributes:
-        arrays: The array(s) to use in an unnest. The i-th array in the list corresponds to the i-th output column.
+        arrays: The array(s) to use in an unnest. The i-th array in the list corresponds to the i-th output column, other
+            than arrays of rows, which have a column per field, and maps, which have a key and a value column.
         with_ordinality: Whether there should be an ordinality column appended at the end of the UNNEST.
     """
 
@@ -1024,10 +1158,15 @@ class Unnest(Relation):
     def _compute_data_type(self) -> DataType:
         dtypes = []
         for val in self.arrays:
-            if val.data_type.type_name != type_consts.ARRAY:
+            if val.data_type.type_name == type_consts.MAP:
+                dtypes.append(val.data_type.parameters["from_dtype"])
+                dtypes.append(val.data_type.parameters["to_dtype"])
+            elif val.data_type.type_name != type_consts.ARRAY:
                 dtypes.append(unknown())
             else:
-                dtypes.append(val.data_type.parameters["dtype"])
+                dtypes += row_types(val.data_type.parameters["dtype"])
+        if self.with_ordinality:
+            dtypes.append(bigint())
         return row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1038,12 +1177,15 @@ class Unnest(Relation):
             str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
-    def resolve(self, existing_schema: Schema) -> Schema:
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
         from treeno.datatypes.resolve import resolve_fields
 
         # There's no base
+        scope = Schema([], relation_ids=set(), outer_scope=outer_scope)
         self.arrays = [
-            resolve_fields(arr, existing_schema) for arr in self.arrays
+            resolve_fields(arr, scope, existing_schema) for arr in self.arrays
         ]
         self.data_type = self._compute_data_type()
         return Schema(
@@ -1052,6 +1194,10 @@ class Unnest(Relation):
                 for dtype in self.data_type.parameters["dtypes"]
             ],
             relation_ids=set(),
+            # The elements could be of any number of columns
+            partial_ids={
+                None for arr in self.arrays if arr.data_type == unknown()
+            },
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1072,9 +1218,10 @@ class Lateral(Relation):
     def sql(self, opts: PrintOptions) -> str:
         return f"LATERAL({self.subquery.sql(opts)})"
 
-    def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We explicitly don't maybe_prune_schema here, since lateral needs to explicitly pass it down
-        return self.subquery.resolve(existing_schema)
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
+        return self.subquery.resolve(existing_schema, outer_scope)
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.subquery)
@@ -1128,9 +1275,11 @@ class TableSample(Relation):
             percentage_sql = re.sub("E0$", "", percentage_sql)
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage_sql})"
 
-    def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-        return self.relation.resolve(existing_schema)
+    def resolve(
+        self, existing_schema: Schema, outer_scope: Optional[Schema] = None
+    ) -> Schema:
+        # Table sample should not affect the namespace scope
+        return self.relation.resolve(existing_schema, outer_scope)
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.relation)
@@ -1161,18 +1310,15 @@ def relation_string(
         return relation_str
 
 
-def maybe_prune_schema(relation: Relation, existing_schema: Schema) -> Schema:
-    """Prune the schema depending on whether the relation will enter a new namespace
+def is_lateral(relation: Relation) -> bool:
+    """Whether the expressions of a joined relation can refer to the columns of the relations before it."""
+    if isinstance(relation, (AliasedRelation, TableSample)):
+        return is_lateral(relation.relation)
+    return isinstance(relation, (Unnest, Lateral))
 
-    Some relations don't want extra schema information to be passed through because it's in its own parenthesized
-    expression which is not aware of the outer namespace.
 
-    Args:
-        relation: The relation to enter into with the given schema
-        existing_schema: The schema to pass into the relation
-    Returns:
-        Either an empty :class:`Schema` or the original :class:`Schema`.
-    """
-    if isinstance(relation, Query):
-        return Schema.empty_schema()
-    return existing_schema
+def row_types(dtype: DataType) -> List[DataType]:
+    """The types of the columns of rows with the given type"""
+    if dtype.type_name == type_consts.ROW:
+        return list(dtype.parameters["dtypes"])
+    return [dtype]
-- 
2.43.0


From 918bc89016018bb03a0abc95448ef65f9316d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 16/22] fix: print references to windows as such, and
 parenthesize rows in grouping sets

---
 treeno/functions/aggregate.py |  7 ++++---
 treeno/groupby.py             |  8 ++++++--
 treeno/window.py              | 19 +++++++++++++++++++
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 84f9145..ebb4a58 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -53,9 +53,10 @@ class AggregateFunction(Function, ABC):
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
         if self.window:
-            constraint_builder.add_entry(
-                "OVER", parenthesize(self.window.sql(opts))
-            )
+            window_str = self.window.sql(opts)
+            if not self.window.is_reference():
+                window_str = parenthesize(window_str)
+            constraint_builder.add_entry("OVER", window_str)
         return constraint_builder.to_string(opts)
 
     def get_orderby_string(self, opts: PrintOptions) -> str:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 81fe017..2c06c51 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -4,7 +4,7 @@ from typing import List
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, SetQuantifier, Sql
-from treeno.expression import Value
+from treeno.expression import RowConstructor, Value
 from treeno.printer import join_stmts
 
 
@@ -44,7 +44,11 @@ class GroupingSet(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         if len(self.values) == 1:
-            return self.values[0].nested_sql(opts)
+            value_str = self.values[0].nested_sql(opts)
+            # Otherwise the values of a row would be the ones of the grouping set
+            if isinstance(self.values[0], RowConstructor):
+                value_str = f"({value_str})"
+            return value_str
         return f"({join_stmts([val.nested_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/window.py b/treeno/window.py
index 1e92b9f..3378b20 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -99,6 +99,22 @@ class Window(Sql):
     start_bound: FrameBound = attr.ib(factory=default_start_bound)
     end_bound: FrameBound = attr.ib(factory=default_end_bound)
 
+    def _has_frame(self) -> bool:
+        return (
+            self.frame_type != FrameType.default()
+            or not self.start_bound.equals(default_start_bound())
+            or not self.end_bound.equals(default_end_bound())
+        )
+
+    def is_reference(self) -> bool:
+        """Whether this is just the name of another window"""
+        return bool(
+            self.parent_window
+            and not self.partitions
+            and not self.orderby
+            and not self._has_frame()
+        )
+
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         if self.parent_window:
@@ -114,6 +130,9 @@ class Window(Sql):
                 [order_term.sql(opts) for order_term in self.orderby], opts
             )
             builder.add_entry("ORDER", "BY " + order_value)
+        # A frame that's left out is the one of the parent window
+        if self.parent_window and not self._has_frame():
+            return builder.to_string(opts)
         builder.add_entry(
             self.frame_type.value,
             " ".join(
-- 
2.43.0


From b92a204bd76311dff68ce5be33b7a58ebb6e6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 17/22] fix: print the parentheses of a lambda without inputs

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index bb40e8f..c94a876 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -416,7 +416,7 @@ class Lambda(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
-        if len(self.inputs) > 1:
+        if len(self.inputs) != 1:
             input_string = parenthesize(input_string)
         return f"{input_string} -> {self.expr.nested_sql(opts)}"
 
-- 
2.43.0


From ad86ce7fcd9add157da3682a3e0c85045558fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 18/22] fix: AT_TIMEZONE and WITH_TIMEZONE of a timestamp
 without a precision

---
 treeno/functions/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 51881a3..6aeef2f 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -138,7 +138,7 @@ class AtTimezone(Function):
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -159,7 +159,7 @@ class WithTimezone(Function):
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 01224469743522b8f528acfcedf2bea460f28532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 19/22] fix: datetime literals with a time zone

---
 treeno/datatypes/inference.py | 9 +++++++++
 treeno/expression.py          | 8 +++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 07d246b..79c8d6b 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -66,3 +66,12 @@ def infer_timelike_precision(value: str) -> int:
     # Number of digits past the dot is its precision, which may be followed by a timezone
     match = re.search(r"\.(\d+)", value)
     return len(match.group(1)) if match else 0
+
+
+def infer_timelike_timezone(value: str) -> bool:
+    # What follows the date and the time of day is a timezone
+    match = re.match(
+        r"\s*(?=[+-]?\d)([+-]?\d+-\d+-\d+)?\s*(\d+:\d+(:\d+(\.\d+)?)?)?\s*(?P<zone>\S)?",
+        value,
+    )
+    return match is not None and match.group("zone") is not None
diff --git a/treeno/expression.py b/treeno/expression.py
index c94a876..65f811a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -58,6 +58,7 @@ from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
     infer_timelike_precision,
+    infer_timelike_timezone,
     infer_type,
 )
 from treeno.datatypes.types import DataType
@@ -891,14 +892,15 @@ class TypeConstructor(Expression):
     type_name: str = attr.ib(converter=str.upper)
 
     def __attrs_post_init__(self) -> None:
-        # This can't be timezoned, so we ignore that
         if self.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
         elif self.type_name == type_consts.TIME:
             self.data_type = time(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
         elif self.type_name == type_consts.DECIMAL:
             self.data_type = infer_decimal(Decimal(self.value))
-- 
2.43.0


From a5d977293c5e9470d0a2bf67948171cd5a015b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 20/22] fix: the antlr-tree command failed on or dropped
 parentheses

The parse tree was printed as text in parentheses and read back, so parentheses among the tokens were read as structure.
---
 treeno/grammar/parse.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index adf0af1..8e40260 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -1,4 +1,5 @@
 from io import StringIO
+from typing import List, Union
 
 import nltk
 from antlr4 import CommonTokenStream
@@ -6,7 +7,9 @@ from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
 from antlr4.Token import Token
+from antlr4.tree.Tree import Tree
 from antlr4.tree.Trees import Trees
+from antlr4.Utils import escapeWhitespace
 
 try:
     from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer  # type: ignore
@@ -68,10 +71,16 @@ class AST:
         return self.parser().standaloneType()
 
 
-def tree(ast: AST, node: ParserRuleContext) -> str:
-    parenthetical_tree = nltk.Tree.fromstring(
-        Trees.toStringTree(node, None, ast.parser())
+def to_nltk_tree(node: Tree, rule_names: List[str]) -> Union[nltk.Tree, str]:
+    text = escapeWhitespace(Trees.getNodeText(node, rule_names), False)
+    if not node.getChildCount():
+        return text
+    return nltk.Tree(
+        text, [to_nltk_tree(child, rule_names) for child in node.getChildren()]
     )
+
+
+def tree(ast: AST, node: ParserRuleContext) -> str:
     sio = StringIO()
-    parenthetical_tree.pretty_print(stream=sio)
+    to_nltk_tree(node, ast.parser().ruleNames).pretty_print(stream=sio)
     return sio.getvalue()
-- 
2.43.0


From b101375e6b9c113870c3cd26c4be571d235efd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 21/22] fix: the tree command failed on types

---
 treeno/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/cli.py b/treeno/cli.py
index a21f69a..e628fcd 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -103,6 +103,9 @@ def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
         # Resolve a query since it is much more complicated
         sql_obj.resolve(Schema.empty_schema())
     tree = treeify(sql_obj)
+    if not isinstance(tree, Tree):
+        # Data types are terminal, and a tree needs a root to be drawn
+        tree = Tree(type(sql_obj).__name__, [tree])
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
-- 
2.43.0


From 88af4c83dc25390e32aa12683c7ad7517cd2ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 22/22] fix: NOT a <> b keeps its text, so that formatting is
 stable

---
 treeno/expression.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 65f811a..7dcbf2c 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -616,7 +616,6 @@ class Not(UnaryExpression):
                 InQuery,
                 Between,
                 Equal,
-                NotEqual,
             ),
         ):
             return self.value.to_string(opts, negate=True)
-- 
2.43.0

