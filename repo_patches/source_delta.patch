From bff23719232634bd700ab52743f05a11941b1f67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 001/128] fix: flip the comparison when a constant is on the
 left of a pushed-down condition

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60d68e4..170cfd1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -28,6 +28,8 @@ from .taskers.execute import ExecuteTasker
 from .taskers.use import UseCommandTasker
 from .taskers.show import ShowCommandTasker
 
+SWAP_CONDITION_EXPS = {">": "<", ">=": "<=", "<": ">", "<=": ">="}
+
 
 class AssignParameter(sqlglot_expressions.Parameter):
     arg_types = {"this": True, "expression": False, "wrapped": False}
@@ -889,6 +891,8 @@ class Compiler(object):
             return None, None
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
+            if condition_exp in SWAP_CONDITION_EXPS and not self.is_column(expression.args["this"], config, arguments):
+                condition_exp = SWAP_CONDITION_EXPS[condition_exp]
             if condition_column["typing_name"] not in config["querys"]:
                 config["querys"][condition_column["typing_name"]] = {}
             condition_querys = config["querys"][condition_column["typing_name"]]
-- 
2.43.0


From 87b6022e0004dd876331455817f0177e1d2878b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 002/128] fix: CASE WHEN without ELSE yields NULL instead of 0
 when nothing matches

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 170cfd1..a12a6a4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1685,7 +1685,7 @@ class Compiler(object):
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
             defaul_column = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                if expression.args.get("default") else ["#const", 0]
+                if expression.args.get("default") else ["#const", None]
             if not expression.args.get("ifs"):
                 return defaul_column
             def build_if(if_expression, case_expressions):
-- 
2.43.0


From 99d4694a541f2472c4b9319de29ee8a235c1ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 003/128] fix: honour WITH clauses placed inside INSERT INTO
 ... SELECT

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a12a6a4..967fec3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -312,6 +312,8 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if select_expression.args.get("with"):
+                self.compile_with(select_expression.args["with"], config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
-- 
2.43.0


From 0a84a9cfd47a60230c41361e6f0f65117eceadbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 004/128] fix: AND binds tighter than OR when both are written
 without parentheses

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 967fec3..f722aa2 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -45,6 +45,12 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
     class Parser(sqlglot_parser.Parser):
+        def _parse_conjunction(self):
+            return self._parse_tokens(self._parse_and, {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or})
+
+        def _parse_and(self):
+            return self._parse_tokens(self._parse_equality, {sqlglot_parser.TokenType.AND: sqlglot_expressions.And})
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From 17165e42cfc5de9e9b22356e79da48437f4c3042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 005/128] fix: keep every condition when the same operator is
 applied twice to a column in WHERE

---
 syncanysql/compiler.py | 43 +++++++++++-------------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f722aa2..ade18f1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -904,68 +904,47 @@ class Compiler(object):
             if condition_column["typing_name"] not in config["querys"]:
                 config["querys"][condition_column["typing_name"]] = {}
             condition_querys = config["querys"][condition_column["typing_name"]]
-            if isinstance(condition_querys, dict):
-                if condition_exp not in condition_querys:
-                    condition_querys[condition_exp] = condition_calculater
-                    return None
-                condition_querys = [condition_querys]
-                config["querys"][condition_column["typing_name"]] = condition_querys
-            for condition_query in condition_querys:
-                if condition_exp not in condition_query:
-                    condition_query[condition_exp] = condition_calculater
-                    return None
-            condition_querys.append({condition_exp: condition_calculater})
+            if condition_exp in condition_querys:
+                return expression
+            condition_querys[condition_exp] = condition_calculater
+            setattr(expression, "syncany_valuer", ["#const", 1])
             return None
 
         if isinstance(expression, sqlglot_expressions.EQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "==", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "==", right_calculater)
         elif isinstance(expression, sqlglot_expressions.NEQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "!=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "!=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.In):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_where_condition(expression.args.get("this"), config, arguments, primary_table, join_tables)
         else:
-- 
2.43.0


From b207c6599943a33cc648075a2dc95e9305e08ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 006/128] fix: do not push down IN lists that reference columns
 of the filtered row

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ade18f1..3d43355 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -882,6 +882,8 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
+                if any([has_column_expression(value_expression_item) for value_expression_item in right_expression]):
+                    return None, None
                 value_items = [self.compile_where_condition_column(value_expression_item, config, arguments, primary_table, join_tables)
                                for value_expression_item in right_expression]
                 return left_column, ["#make", value_items]
-- 
2.43.0


From f7f4e9faa92b03797123f039ba68175cdfd68587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 007/128] fix: match negative and fractional constants in CASE
 value WHEN constant

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3d43355..0377901 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1665,7 +1665,7 @@ class Compiler(object):
                 if expression.args.get("ifs"):
                     for case_expression in expression.args["ifs"]:
                         case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
-                        cases[(":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value] = \
+                        cases[case_value] = \
                             self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
                 cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
                     if expression.args.get("default") else None
-- 
2.43.0


From efac9b0b0b02aeecbba4bba2ca0e7b27f3e3c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 008/128] fix: the remainder of % takes the sign of the
 dividend

---
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 7a40605..87fe588 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -35,7 +35,8 @@ def mysql_div(x, y):
 def mysql_mod(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) % ensure_number(y)
+    x, y = ensure_number(x), ensure_number(y)
+    return -(-x % abs(y)) if x < 0 else x % abs(y)
 
 @typing_filter(int)
 def mysql_bitwiseand(x, y):
-- 
2.43.0


From 49fa28040aaa9621bdf7190dc319573b05d06191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 009/128] fix: AVG does not count NULL values

---
 syncanysql/calculaters/aggregate_calculater.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 577c453..7cc60c4 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -187,6 +187,8 @@ class AggregateMinCalculater(AggregateCalculater):
 
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
+        if data_value is None:
+            return state_value
         try:
             state_value["count_value"] += 1
             if isinstance(data_value, NumberDecimalTypes):
-- 
2.43.0


From 21118fcd381085004ca6d0848843886772ef3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 010/128] fix: merge JSON_OBJECTAGG states of several batches
 instead of dropping them

---
 syncanysql/calculaters/aggregate_calculater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 7cc60c4..59eaf52 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -433,7 +433,7 @@ class AggregateJsonObjectaggCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return state_value.update(data_value)
+        return {**state_value, **data_value}
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From fb659c8c587e6717673a315a14feeeee1d92a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 011/128] fix: apply LIMIT to the final rows of DISTINCT, GROUP
 BY and multi-match joins, and honour LIMIT 0

---
 syncanysql/compiler.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0377901..d091599 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -544,20 +544,17 @@ class Compiler(object):
             self.compile_order(order_expression.args["expressions"], config, arguments, primary_table)
 
         offset_value = max(int(expression.args.get("offset").args["expression"].args["this"]), 0) if expression.args.get("offset") else 0
-        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else 0
-        if limit_value != 0 or offset_value > 0:
-            if config["predicate"] or config["intercept"] or (config.get("aggregate") and
-                                                              (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0:
-                if limit_value != 0:
-                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
-                                                (offset_value + limit_value) if limit_value > 0 else limit_value])
-                else:
-                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
+        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else None
+        if limit_value is not None or offset_value > 0:
+            if limit_value is None:
+                config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
             else:
-                if offset_value > 0:
-                    config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
-                arguments["@limit"] = offset_value + limit_value
+                if limit_value > 0 and not (config["predicate"] or config["intercept"] or (config.get("aggregate") and
+                                                                 (config["aggregate"]["schema"] or config["aggregate"]["window_schema"]))
+                                            or config["pipelines"] or group_expression or expression.args.get("distinct")):
+                    arguments["@limit"] = offset_value + limit_value
+                config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
+                                            (offset_value + limit_value) if limit_value >= 0 else limit_value])
 
         if group_expression and ("aggregate" not in config or not config["aggregate"] or not config["aggregate"]["schema"]):
             self.compile_group_column(group_expression, config, arguments, primary_table, join_tables)
-- 
2.43.0


From d0326c13744a460f361aba7440b48860953a5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 012/128] fix: do not apply ORDER BY, LIMIT and OFFSET to
 single batches

---
 syncanysql/taskers/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 2cb7b09..f496d0a 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -135,6 +135,9 @@ class QueryTasker(object):
             if not aggregate:
                 aggregate = copy.deepcopy(DEAULT_AGGREGATE)
             self.compile_reduce_config(aggregate)
+        elif batch > 0 and self.config.get("pipelines") and not arguments.get("@loop") and not arguments.get("@streaming"):
+            # ORDER BY, LIMIT and OFFSET pipelines need the whole result, not one batch of it
+            arguments["@batch"] = 0
         elif 0 < limit < batch:
             arguments["@batch"] = limit
 
-- 
2.43.0


From 2ff8ba7f75ebdc920128956fbf4bfb25eb646462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 013/128] fix: compute window functions over the whole result
 instead of each batch

---
 syncanysql/taskers/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index f496d0a..a5e4503 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -121,6 +121,9 @@ class QueryTasker(object):
             dependency_taskers.append(dependency_tasker)
 
         limit, batch = int(arguments.get("@limit", 0)), int(arguments.get("@batch", 0))
+        if batch > 0 and aggregate and aggregate["window_schema"] and not arguments.get("@streaming"):
+            # a window spans the whole result, not one batch of it
+            arguments["@batch"] = batch = 0
         require_reduce = False
         if aggregate and (aggregate.get("schema") or aggregate["window_schema"]):
             if batch > 0:
-- 
2.43.0


From 8620a7327d51d62174194273b6e9094982a86c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 014/128] fix: evaluate ON conditions that only name another
 table's column per joined row

---
 syncanysql/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d091599..27e985e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2147,7 +2147,8 @@ class Compiler(object):
             calculate_fields = []
             if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
-            if not condition_column or calculate_fields:
+            if not condition_column or calculate_fields or (condition_column["table_name"] != join_table["name"]
+                                                            and not self.is_subquery(value_expression, config, arguments)):
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From 4f3902743249e3604d266d6495a1218b6b5932b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 015/128] fix: keep every ON condition when the same operator
 is applied twice to a joined column

---
 syncanysql/compiler.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 27e985e..4ec84f3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2181,17 +2181,13 @@ class Compiler(object):
             if condition_column["typing_name"] not in join_table["querys"]:
                 join_table["querys"][condition_column["typing_name"]] = {}
             condition_querys = join_table["querys"][condition_column["typing_name"]]
-            if isinstance(condition_querys, dict):
-                if condition_exp not in condition_querys:
-                    condition_querys[condition_exp] = condition_calculater
-                    return None
-                condition_querys = [condition_querys]
-                join_table["querys"][condition_column["typing_name"]] = condition_querys
-            for condition_query in condition_querys:
-                if condition_exp not in condition_query:
-                    condition_query[condition_exp] = condition_calculater
-                    return None
-            condition_querys.append({condition_exp: condition_calculater})
+            if condition_exp not in condition_querys:
+                condition_querys[condition_exp] = condition_calculater
+                return None
+            # the loader keeps one value per operator, further ones are evaluated on the joined rows
+            if condition_column["column_name"] not in join_table["columns"]:
+                join_table["columns"][condition_column["column_name"]] = condition_column
+            join_table["having_expressions"].append(expression)
             return None
 
         if isinstance(expression, sqlglot_expressions.EQ):
-- 
2.43.0


From 20400c81ff235a5cd1eb1d602187258240bd5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 016/128] fix: BETWEEN over columns of a joined table

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4ec84f3..9781d11 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1711,9 +1711,9 @@ class Compiler(object):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
             return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
+                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
+                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
             }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
-- 
2.43.0


From 1974e1ad506fe7e74ff40b9e5c7cd5409af8cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 017/128] fix: keep WHERE and the ON condition of a RIGHT JOIN
 apart when rewriting it to a LEFT JOIN

---
 syncanysql/compiler.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9781d11..8bfb051 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2980,11 +2980,6 @@ class Compiler(object):
         primary_table.update({"related_tables": set([]), "on_expressions": [], "const_expressions": [],
                               "calculate_expressions": [], "join_type": "primary",
                               "table_expression": expression.args["from"].args["expressions"][0]})
-        if expression.args.get("where"):
-            self.optimize_rewrite_parse_condition(expression, config, arguments, primary_table,
-                                                  expression.args["where"].args["this"], primary_table["table_name"],
-                                                  primary_table["related_tables"], primary_table["calculate_expressions"],
-                                                  primary_table["calculate_expressions"], primary_table["calculate_expressions"])
         join_tables = []
         for join_expression in expression.args["joins"]:
             join_table = {"table_name": self.optimize_rewrite_parse_table(expression, config, arguments,
@@ -2997,6 +2992,10 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
+            if join_table["join_type"] == "right":
+                # the whole ON condition moves to the table this one is joined to
+                join_table["on_expressions"].extend(join_table["const_expressions"] + join_table["calculate_expressions"])
+                join_table["const_expressions"], join_table["calculate_expressions"] = [], []
             join_tables.append(join_table)
 
         selected_table = primary_table
@@ -3044,12 +3043,8 @@ class Compiler(object):
             if on_expressions:
                 sql.append("ON " + " AND ".join([self.generate_sql(on_expression) for on_expression in on_expressions]))
 
-        where_expressions = selected_table["const_expressions"] + primary_table["calculate_expressions"] + selected_table["calculate_expressions"]
-        if where_expressions:
-            sql.append("WHERE " + " AND ".join([("(" + self.generate_sql(where_expression) + ")")
-                                                if isinstance(where_expression, sqlglot_expressions.Or)
-                                                else self.generate_sql(where_expression)
-                                                for where_expression in where_expressions]))
+        if expression.args.get("where"):
+            sql.append(self.generate_sql(expression.args["where"]))
         if expression.args.get("group"):
             sql.append(self.generate_sql(expression.args["group"]))
         if expression.args.get("having"):
-- 
2.43.0


From cc17b9f29da8c564ea2d0f163382d4de1bc1ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 018/128] fix: INNER JOIN drops unmatched rows in every join of
 a chain and leaves LEFT JOINs alone

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8bfb051..bb1a785 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3076,7 +3076,7 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
-            if primary_table["table_name"] in join_table["related_tables"]:
+            if join_table["join_kind"] == "inner":
                 for on_expression in join_table["on_expressions"]:
                     self.parse_calculate(on_expression, config, arguments, primary_table, inner_calculate_fields)
         inner_calculate_fields = [calculate_field for calculate_field in inner_calculate_fields
-- 
2.43.0


From e44a055c73e0b5ac4975e1030ffa1fccd82aa82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 019/128] fix: do not push equality and IN conditions on the
 same column down together

---
 syncanysql/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index bb1a785..311e9a3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -29,6 +29,8 @@ from .taskers.use import UseCommandTasker
 from .taskers.show import ShowCommandTasker
 
 SWAP_CONDITION_EXPS = {">": "<", ">=": "<=", "<": ">", "<=": ">="}
+# the loader merges equality and IN filters on the same column into one list of accepted values
+CONFLICT_CONDITION_EXPS = {"==": "in", "in": "=="}
 
 
 class AssignParameter(sqlglot_expressions.Parameter):
@@ -903,7 +905,7 @@ class Compiler(object):
             if condition_column["typing_name"] not in config["querys"]:
                 config["querys"][condition_column["typing_name"]] = {}
             condition_querys = config["querys"][condition_column["typing_name"]]
-            if condition_exp in condition_querys:
+            if condition_exp in condition_querys or CONFLICT_CONDITION_EXPS.get(condition_exp) in condition_querys:
                 return expression
             condition_querys[condition_exp] = condition_calculater
             setattr(expression, "syncany_valuer", ["#const", 1])
@@ -2181,7 +2183,7 @@ class Compiler(object):
             if condition_column["typing_name"] not in join_table["querys"]:
                 join_table["querys"][condition_column["typing_name"]] = {}
             condition_querys = join_table["querys"][condition_column["typing_name"]]
-            if condition_exp not in condition_querys:
+            if condition_exp not in condition_querys and CONFLICT_CONDITION_EXPS.get(condition_exp) not in condition_querys:
                 condition_querys[condition_exp] = condition_calculater
                 return None
             # the loader keeps one value per operator, further ones are evaluated on the joined rows
-- 
2.43.0


From 542721447e0e830beecc4d7d3a5a2283dbd6a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 020/128] fix: % binds as tightly as * and /

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 311e9a3..ed4d292 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -47,6 +47,10 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
     class Parser(sqlglot_parser.Parser):
+        TERM = {token_type: term for token_type, term in sqlglot_parser.Parser.TERM.items()
+                if term is not sqlglot_expressions.Mod}
+        FACTOR = {**sqlglot_parser.Parser.FACTOR, sqlglot_parser.TokenType.MOD: sqlglot_expressions.Mod}
+
         def _parse_conjunction(self):
             return self._parse_tokens(self._parse_and, {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or})
 
-- 
2.43.0


From cc29dcc9e5ad24d6bb5e4513137489d846993385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 021/128] fix: bitwise operators and shifts follow SQL
 precedence

---
 syncanysql/compiler.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ed4d292..19079cf 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -57,6 +57,29 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         def _parse_and(self):
             return self._parse_tokens(self._parse_equality, {sqlglot_parser.TokenType.AND: sqlglot_expressions.And})
 
+        def _parse_bitwise(self):
+            return self._parse_tokens(self._parse_bitwise_and, {sqlglot_parser.TokenType.PIPE: sqlglot_expressions.BitwiseOr,
+                                                                sqlglot_parser.TokenType.DPIPE: sqlglot_expressions.DPipe})
+
+        def _parse_bitwise_and(self):
+            return self._parse_tokens(self._parse_bitwise_shift, {sqlglot_parser.TokenType.AMP: sqlglot_expressions.BitwiseAnd})
+
+        def _parse_bitwise_shift(self):
+            this = self._parse_term()
+            while True:
+                if self._match_pair(sqlglot_parser.TokenType.LT, sqlglot_parser.TokenType.LT):
+                    this = self.expression(sqlglot_expressions.BitwiseLeftShift, this=this, expression=self._parse_term())
+                elif self._match_pair(sqlglot_parser.TokenType.GT, sqlglot_parser.TokenType.GT):
+                    this = self.expression(sqlglot_expressions.BitwiseRightShift, this=this, expression=self._parse_term())
+                else:
+                    return this
+
+        def _parse_factor(self):
+            return self._parse_tokens(self._parse_bitwise_xor, self.FACTOR)
+
+        def _parse_bitwise_xor(self):
+            return self._parse_tokens(self._parse_unary, {sqlglot_parser.TokenType.CARET: sqlglot_expressions.BitwiseXor})
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From 7d12689c3a55f46f8ff0c0d80c79a505d6fff7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 022/128] fix: IN with a single non-constant element compares
 instead of yielding NULL

---
 syncanysql/compiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 19079cf..579db98 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1799,6 +1799,13 @@ class Compiler(object):
                 ]
 
             func_name = expression.key.lower()
+            if isinstance(expression, sqlglot_expressions.In) and len(expression.args.get("expressions") or []) == 1:
+                # "#make" does not build a list of a single value
+                return [
+                    "@mysql::eq",
+                    self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                    self.compile_calculate(expression.args["expressions"][0], config, arguments, primary_table, column_join_tables, join_index)
+                ]
             if expression.args.get("expressions"):
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
-- 
2.43.0


From 3fef929ee00bcb7a97107c4322c832912d141c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 023/128] fix: BETWEEN yields NULL when a NULL operand leaves
 it undecided

---
 .../calculaters/mysql_funcs/logical_funcs.py  | 24 +++++++++++++++++++
 syncanysql/compiler.py                        | 11 +++++----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 1d52358..a85a6e8 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -198,6 +198,30 @@ def mysql_in(a, b):
             return 1
     return None if hs_none else 0
 
+@typing_filter(int)
+def mysql_between(a, low, high):
+    return mysql_and(mysql_gte(a, low), mysql_lte(a, high))
+
+@typing_filter(int)
+def mysql_and(a, b):
+    if a is None:
+        return None if b is None or b else 0
+    if not a:
+        return 0
+    if b is None:
+        return None
+    return 1 if b else 0
+
+@typing_filter(int)
+def mysql_or(a, b):
+    if a is None:
+        return 1 if b is not None and b else None
+    if a:
+        return 1
+    if b is None:
+        return None
+    return 1 if b else 0
+
 @typing_filter(int)
 def mysql_not(a):
     if a is None:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 579db98..29047b2 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1739,11 +1739,12 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
-            return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
-            }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
+            return [
+                "@mysql::between",
+                self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
+                self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
+            ]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index, 
-- 
2.43.0


From beefab9b8c9581f9d43d3416dfb8023ec7a82bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 024/128] fix: CASE value WHEN NULL never matches and the first
 of equal constants wins

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 29047b2..d5b9abb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1691,6 +1691,9 @@ class Compiler(object):
                 if expression.args.get("ifs"):
                     for case_expression in expression.args["ifs"]:
                         case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
+                        if case_value is None or case_value in cases:
+                            # NULL equals nothing, and the first of several equal branches applies
+                            continue
                         cases[case_value] = \
                             self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
                 cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-- 
2.43.0


From 6751ff2d3d2c615bff016202c643b89e578310e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 025/128] fix: AND and OR of NULL operands follow three-valued
 logic

---
 syncanysql/compiler.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d5b9abb..3f6bfd7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1787,18 +1787,10 @@ class Compiler(object):
                                                column_join_tables, join_index)]
             return ["@current_env_variable::get_value", ["#const", "@" + name]]
         elif isinstance(expression, (sqlglot_expressions.Binary, sqlglot_expressions.Condition)):
-            if isinstance(expression, sqlglot_expressions.And):
+            if isinstance(expression, (sqlglot_expressions.And, sqlglot_expressions.Or)):
                 return [
-                    "#if",
-                    self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#const", 0]
-                ]
-            if isinstance(expression, sqlglot_expressions.Or):
-                return [
-                    "#if",
+                    "@mysql::and" if isinstance(expression, sqlglot_expressions.And) else "@mysql::or",
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#const", 1],
                     self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
                 ]
 
-- 
2.43.0


From 0cee2d208942bd0bf22e78b5cc30cde162099aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 026/128] fix: concat_ws is compiled to its function and skips
 NULL arguments

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 +++-
 syncanysql/compiler.py                             | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 11a6446..2a618dd 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -90,7 +90,9 @@ def mysql_concat(*args):
 
 @typing_filter(str)
 def mysql_concat_ws(sep, *args):
-    return sep.join(ensure_str(arg) for arg in args)
+    if sep is None:
+        return None
+    return ensure_str(sep).join(ensure_str(arg) for arg in args if arg is not None)
 
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3f6bfd7..68252be 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1721,6 +1721,8 @@ class Compiler(object):
                 "substring": ["this", "start", "length"],
             }
             func_name = expression.key.lower()
+            if isinstance(expression, sqlglot_expressions.ConcatWs):
+                func_name = "concat_ws"
             column = ["@mysql::" + func_name] if is_mysql_func(func_name) else ["@" + func_name]
             arg_names = func_args.get(func_name) or [key for key in expression.arg_types] or ["this", "expression", "expressions"]
             for arg_name in arg_names:
-- 
2.43.0


From 36ab5f0d1d245f87b8a6ebb04406065434bd71c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 027/128] fix: right(s, 0) is empty and left and right of a
 negative length are empty

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 2a618dd..0e6cd31 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -121,13 +121,13 @@ def mysql_ucase(s):
 def mysql_left(s, x):
     if s is None:
         return None
-    return ensure_str(s)[:x]
+    return ensure_str(s)[:x] if x > 0 else ''
 
 @typing_filter(str)
 def mysql_right(s, x):
     if s is None:
         return None
-    return ensure_str(s)[-x:]
+    return ensure_str(s)[-x:] if x > 0 else ''
 
 @typing_filter(str)
 def mysql_trim(s):
-- 
2.43.0


From bda3e48f9b00227ad6b8d1b16610d35d3e4d7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 028/128] fix: elt returns its last argument and NULL for an
 index below 1

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 0e6cd31..d09bf35 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -137,7 +137,7 @@ def mysql_trim(s):
 
 @typing_filter(str)
 def mysql_elt(n, *args):
-    return args[n - 1] if n < len(args) else None
+    return args[n - 1] if 1 <= n <= len(args) else None
 
 @typing_filter(int)
 def mysql_field(s, *args):
-- 
2.43.0


From 1311f126da3204144cfd83b3f6f7cba2afcdd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 029/128] fix: find_in_set of a NULL list is NULL and an empty
 list contains nothing

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index d09bf35..f876a6a 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -150,8 +150,10 @@ def mysql_field(s, *args):
 
 @typing_filter(int)
 def mysql_find_in_set(s, ss):
-    if s is None:
+    if s is None or ss is None:
         return None
+    if ss == "":
+        return 0
     try:
         return ensure_str(ss).split(",").index(s) + 1
     except ValueError:
-- 
2.43.0


From 8e97981ec4f6a77bcdc5bac113ac4d372bc98be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 030/128] fix: replacing the empty string changes nothing

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index f876a6a..d193174 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -163,6 +163,8 @@ def mysql_find_in_set(s, ss):
 def mysql_replace(s, s1, s2):
     if s is None:
         return None
+    if s1 == "" and s2 is not None:
+        return ensure_str(s)
     return ensure_str(s).replace(s1, s2)
 
 @typing_filter(str)
-- 
2.43.0


From f45c1f74f21fe11d37c1a9bb7efe210ed18de696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 031/128] fix: substring counts a negative position from the
 end

---
 .../calculaters/mysql_funcs/string_funcs.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index d193174..87dfb7f 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -172,18 +172,22 @@ def mysql_substring(s, n, l=None):
     if s is None:
         return None
     s = ensure_str(s)
-    if isinstance(l, int):
-        return s[n - 1: n + l - 1]
-    return s[n - 1:]
+    if n < 0:
+        n += len(s) + 1
+    if n <= 0 or (l is not None and l <= 0):
+        return ""
+    return s[n - 1:] if l is None else s[n - 1: n + l - 1]
 
 @typing_filter(str)
 def mysql_substr(s, n, l=None):
     if s is None:
         return None
     s = ensure_str(s)
-    if isinstance(l, int):
-        return s[n - 1: n + l - 1]
-    return s[n - 1:]
+    if n < 0:
+        n += len(s) + 1
+    if n <= 0 or (l is not None and l <= 0):
+        return ""
+    return s[n - 1:] if l is None else s[n - 1: n + l - 1]
 
 @typing_filter(str)
 def mysql_substring_index(s, d, c):
-- 
2.43.0


From d5ff679c04b9e4799e234e3e8b16bb103eedd9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 032/128] fix: substring_index with a negative count returns
 the part right of the delimiter counted from the end

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 87dfb7f..fb48bbb 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -195,7 +195,7 @@ def mysql_substring_index(s, d, c):
         return None
     s, d = ensure_str(s), ensure_str(d)
     if c < 0:
-        return d.join(s.split(d)[-c:])
+        return d.join(s.split(d)[c:])
     return d.join(s.split(d)[:c])
 
 @typing_filter(str)
-- 
2.43.0


From 837acdd7078fe5c558b04e1aebd5edc9080cdd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 033/128] fix: ascii and ord return the code of the first
 character

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index fb48bbb..f52c880 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -48,13 +48,15 @@ def mysql_oct(x):
 def mysql_ord(x):
     if x is None:
         return None
-    return ord(ensure_str(x))
+    x = ensure_str(x)
+    return ord(x[0]) if x else 0
 
-@typing_filter(str)
+@typing_filter(int)
 def mysql_ascii(s):
     if s is None:
         return None
-    return sum([ord(c) for c in ensure_str(s)])
+    s = ensure_str(s)
+    return ord(s[0]) if s else 0
 
 @typing_filter(str)
 def mysql_char(*args):
-- 
2.43.0


From 2ec8b565a677c0be53be44e3c8a12692666c8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 034/128] fix: length and bit_length of values that are not
 strings

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index f52c880..1f914ec 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -66,13 +66,13 @@ def mysql_char(*args):
 def mysql_bit_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8")) * 8
+    return len(ensure_str(s).encode("utf-8")) * 8
 
 @typing_filter(int)
 def mysql_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8"))
+    return len(ensure_str(s).encode("utf-8"))
 
 @typing_filter(int)
 def mysql_char_length(s):
-- 
2.43.0


From 921ebaadd4875e1c766c95ece8ffd80e3fd61764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 035/128] fix: crc32, to_base64 and from_base64 accept strings,
 numbers and bytes

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 1f914ec..d130707 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -248,19 +248,19 @@ def mysql_crc32(s):
     if s is None:
         return None
     import zlib
-    return zlib.crc32(s)
+    return zlib.crc32(s if isinstance(s, bytes) else ensure_str(s).encode("utf-8"))
 
 @typing_filter(str)
 def mysql_from_base64(s):
     if s is None:
         return None
-    return base64.b64decode(s.encode("utf-8")).decode("utf-8")
+    return base64.b64decode(ensure_str(s).encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_to_base64(s):
     if s is None:
         return None
-    return base64.b64encode(s.encode("utf-8")).decode("utf-8")
+    return base64.b64encode(s if isinstance(s, bytes) else ensure_str(s).encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_inet4_aton(s):
-- 
2.43.0


From dedd73b8c4fc1cd26dd9f8d2a2be64ccd6cebe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 036/128] fix: inet4_ntoa and inet6_ntoa convert back what
 inet4_aton and inet6_aton return

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index d130707..a335095 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -276,7 +276,7 @@ def mysql_inet4_ntoa(b):
     if b is None:
         return None
     try:
-        return socket.inet_ntoa(b)
+        return socket.inet_ntoa(b if isinstance(b, bytes) else binascii.a2b_hex(b))
     except:
         return None
 
@@ -304,7 +304,7 @@ def mysql_inet6_ntoa(b):
     if b is None:
         return None
     try:
-        return socket.inet_ntop(socket.AF_INET6, b)
+        return socket.inet_ntop(socket.AF_INET6, b if isinstance(b, bytes) else binascii.a2b_hex(b))
     except:
         return None
 
-- 
2.43.0


From 49fa07f90ce55cf39944b9205e98e5b81319a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 037/128] fix: hex, bin and oct of numbers have no Python
 prefix, unhex returns a string

---
 .../calculaters/mysql_funcs/string_funcs.py   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index a335095..0382766 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -11,38 +11,40 @@ from ...utils import NumberTypes, ensure_str
 @typing_filter(str)
 def mysql_bin(x):
     if isinstance(x, NumberTypes):
-        return bin(int(x))
+        return format(int(x), "b")
     if x is None:
         return None
     if x is True:
-        return bin(1)
+        return "1"
     if not x:
-        return bin(0)
-    return bin(x)
+        return "0"
+    return format(int(x), "b")
 
 @typing_filter(str)
 def mysql_hex(x):
     if isinstance(x, NumberTypes):
-        return hex(int(x))
+        return format(int(x), "x")
     if x is None:
         return None
     if x is True:
-        return hex(1)
+        return "1"
+    if x == "":
+        return ""
     if not x:
-        return hex(0)
+        return "0"
     return binascii.b2a_hex(x.encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_unhex(x):
     if x is None:
         return None
-    return binascii.a2b_hex(ensure_str(x))
+    return binascii.a2b_hex(ensure_str(x)).decode("utf-8")
 
 @typing_filter(str)
 def mysql_oct(x):
     if x is None:
         return None
-    return oct(x)[2:]
+    return format(int(x), "o")
 
 @typing_filter(int)
 def mysql_ord(x):
-- 
2.43.0


From c68f19f40903f3d87f1c58d43147709503413259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 038/128] fix: field of NULL is 0 and find_in_set compares text

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 0382766..0434114 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -146,7 +146,7 @@ def mysql_elt(n, *args):
 @typing_filter(int)
 def mysql_field(s, *args):
     if s is None:
-        return None
+        return 0
     try:
         return args.index(s) + 1
     except ValueError:
@@ -159,7 +159,7 @@ def mysql_find_in_set(s, ss):
     if ss == "":
         return 0
     try:
-        return ensure_str(ss).split(",").index(s) + 1
+        return ensure_str(ss).split(",").index(ensure_str(s)) + 1
     except ValueError:
         return 0
 
-- 
2.43.0


From 8cddfcc64b3858dbda22b1ac523b5ff27d989f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 039/128] fix: dayofweek counts from Sunday

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9ccb068..b545b5b 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -172,7 +172,7 @@ def mysql_dayofweek(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.weekday() + 1
+    return (dt.weekday() + 1) % 7 + 1
 
 @typing_filter(int)
 def mysql_week(dt, mod=None):
-- 
2.43.0


From 5bf646e63528a2a9a4eee1f2f3b7b58d319a892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 040/128] fix: monthname returns the full name

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index b545b5b..d5d528d 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -156,7 +156,7 @@ def mysql_monthname(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.strftime("%b")
+    return dt.strftime("%B")
 
 @typing_filter(str)
 def mysql_dayname(dt):
-- 
2.43.0


From 8ed9445d9d8489249f521a8ba0e5d35ffee748e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 041/128] fix: datediff subtracts the second date from the
 first one

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index d5d528d..97ec4d0 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -298,7 +298,7 @@ def mysql_datediff(dt1, dt2):
         dt1 = parse_datetime(str(dt1), None, get_timezone())
     if isinstance(dt2, NumberStringTypes):
         dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / 86400)
+    return datetime.date(dt1.year, dt1.month, dt1.day).toordinal() - datetime.date(dt2.year, dt2.month, dt2.day).toordinal()
 
 @typing_filter(int)
 def mysql_timestampdiff(unit, dt1, dt2):
-- 
2.43.0


From 4016acdc8ce4887235fff0a6c3a66dedf8c06385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 042/128] fix: week and yearweek count weeks as MySQL does for
 modes 0 and 1

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 97ec4d0..c7c4bb4 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -180,7 +180,10 @@ def mysql_week(dt, mod=None):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%W" if str(mod) == "1" else "%U"))
+    if str(mod) == "1":
+        iso_year, iso_week = dt.isocalendar()[:2]
+        return 0 if iso_year < dt.year else (53 if iso_year > dt.year else iso_week)
+    return int(dt.strftime("%U"))
 
 @typing_filter(int)
 def mysql_yearweek(dt, mod=None):
@@ -188,7 +191,12 @@ def mysql_yearweek(dt, mod=None):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%Y%W" if str(mod) == "1" else "%Y%U"))
+    if str(mod) == "1":
+        iso_year, iso_week = dt.isocalendar()[:2]
+        return iso_year * 100 + iso_week
+    if dt.strftime("%U") == "00":
+        dt = datetime.date(dt.year - 1, 12, 31)
+    return int(dt.strftime("%Y%U"))
 
 @typing_filter(int)
 def mysql_dayofyear(dt):
-- 
2.43.0


From 85fb8c5df1dd9400b80bc1e4ca59c311ba0a92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 043/128] fix: unix_timestamp accepts dates and strings and
 does not depend on the time zone of the process

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index c7c4bb4..f1d2222 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 import time
+import calendar
 import datetime
 import pytz
 from syncany.utils import get_timezone, parse_datetime
@@ -134,7 +135,8 @@ def mysql_time(dt):
 def mysql_unix_timestamp(dt=None):
     if dt is None:
         return int(time.time())
-    return int(time.mktime(dt.utctimetuple()))
+    dt = mysql_datetime(dt)
+    return calendar.timegm(dt.utctimetuple())
 
 @typing_filter(datetime.datetime)
 def mysql_from_unixtime(t):
-- 
2.43.0


From 78a509012522d9b8898df9bc248f4bd17eba74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:06 +0000
Subject: [PATCH 044/128] fix: time_to_sec of datetimes and times, sec_to_time
 of more than a day or negative seconds

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index f1d2222..be75b8d 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -228,17 +228,18 @@ def mysql_year(dt):
 def mysql_time_to_sec(dt):
     if dt is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
     if isinstance(dt, str):
-        dt = parse_datetime("2000-01-01 " + dt, None, get_timezone())
-    return int((dt - st).total_seconds())
+        dt = parse_datetime(dt if "-" in dt else "2000-01-01 " + dt, None, get_timezone())
+    if isinstance(dt, (datetime.datetime, datetime.time)):
+        return dt.hour * 3600 + dt.minute * 60 + dt.second
+    return 0 if isinstance(dt, datetime.date) else None
 
 @typing_filter(str)
 def mysql_sec_to_time(t):
     if t is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
-    return (st + datetime.timedelta(seconds=t)).strftime("%H:%M:%S")
+    seconds = abs(int(t))
+    return "%s%02d:%02d:%02d" % ("-" if t < 0 else "", seconds // 3600, seconds % 3600 // 60, seconds % 60)
 
 @typing_filter(datetime.datetime)
 def mysql_dateadd(dt, i):
-- 
2.43.0


From a1ff63349f44f1dcec26e87472525c7550691e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 045/128] fix: adding months and years keeps the month in range
 and the day within the month

---
 .../calculaters/mysql_funcs/datetime_funcs.py | 25 ++++---------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index be75b8d..36fff48 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -18,26 +18,11 @@ TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\
 
 def calculate_datetime(dt, interval, is_sub=False):
     def calculate(unit, value):
-        if unit == "YEAR":
-            return dt.replace(year=dt.year - value) if is_sub else dt.replace(year=dt.year + value)
-        if unit in ("QUARTER", "MONTH"):
-            months = value * 3 if unit == "QUARTER" else value
-            if is_sub:
-                new_year = dt.year - int(months / 12) - (1 if dt.month - months % 12 < 1 else 0)
-                new_month = (dt.month - months % 12) + (12 if dt.month - months % 12 < 1 else 0)
-            else:
-                new_year = dt.year + int(months / 12) + (1 if dt.month + months % 12 > 12 else 0)
-                new_month = (dt.month + months % 12) % 12
-            try:
-                return dt.replace(year=new_year, month=new_month)
-            except ValueError:
-                day = dt.day - 1
-                while day >= 1:
-                    try:
-                        return dt.replace(year=new_year, month=new_month, day=day)
-                    except ValueError:
-                        day -= 1
-                return None
+        if unit in ("YEAR", "QUARTER", "MONTH"):
+            months = value * 12 if unit == "YEAR" else (value * 3 if unit == "QUARTER" else value)
+            months = dt.year * 12 + dt.month - 1 + (-months if is_sub else months)
+            new_year, new_month = months // 12, months % 12 + 1
+            return dt.replace(year=new_year, month=new_month, day=min(dt.day, calendar.monthrange(new_year, new_month)[1]))
         if unit in TIMEDELTA_UNITS:
             td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
-- 
2.43.0


From 1bf2be04cb78d92e93a820c6c47b39f6bab2b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 046/128] fix: a MICROSECOND interval is not a second

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 36fff48..0785c8a 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -13,7 +13,7 @@ from ...utils import NumberTypes, NumberStringTypes
 
 TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MONTH": 30 * 24 * 60 * 60,
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
-                   "MICROSECOND": 1}
+                   "MICROSECOND": 0.000001}
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
 def calculate_datetime(dt, interval, is_sub=False):
@@ -24,7 +24,7 @@ def calculate_datetime(dt, interval, is_sub=False):
             new_year, new_month = months // 12, months % 12 + 1
             return dt.replace(year=new_year, month=new_month, day=min(dt.day, calendar.monthrange(new_year, new_month)[1]))
         if unit in TIMEDELTA_UNITS:
-            td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
+            td = datetime.timedelta(microseconds=value) if unit == "MICROSECOND" else datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
         return None
     
@@ -42,7 +42,7 @@ def calculate_datetime(dt, interval, is_sub=False):
     for i in range(7):
         if not values[i]:
             continue
-        dt = calculate(units[i], int(values[i].replace("-", "").replace(".", "").replace(":", "")))
+        dt = calculate(units[i], int(values[i][1:7].ljust(6, "0") if i == 6 else values[i].replace("-", "").replace(":", "")))
         if not dt:
             return None
     return dt
-- 
2.43.0


From 111a30dc045f51f9d458b91ba503327d05051a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 047/128] fix: adding hours, minutes or seconds to a date

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 0785c8a..b243707 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -17,6 +17,9 @@ TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MO
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
 def calculate_datetime(dt, interval, is_sub=False):
+    if not isinstance(dt, datetime.datetime):
+        dt = mysql_datetime(dt)
+
     def calculate(unit, value):
         if unit in ("YEAR", "QUARTER", "MONTH"):
             months = value * 12 if unit == "YEAR" else (value * 3 if unit == "QUARTER" else value)
-- 
2.43.0


From 3ff2d3fff308a1151c71ab8903d2b6ed25421bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 048/128] fix: addtime and subtime of a number add or subtract
 seconds, not days

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index b243707..63d8939 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -273,20 +273,18 @@ def mysql_subdate(dt, i):
 def mysql_addtime(dt, i):
     if dt is None:
         return None
-    if isinstance(dt, NumberStringTypes):
-        dt = parse_datetime(str(dt), None, get_timezone())
+    dt = mysql_datetime(dt)
     if isinstance(i, NumberTypes) or (isinstance(i, str) and i.isdigit()):
-        return dt + datetime.timedelta(days=int(i))
+        return dt + datetime.timedelta(seconds=int(i))
     return calculate_datetime(dt, i, False)
 
 @typing_filter(datetime.datetime)
 def mysql_subtime(dt, i):
     if dt is None:
         return None
-    if isinstance(dt, NumberStringTypes):
-        dt = parse_datetime(str(dt), None, get_timezone())
+    dt = mysql_datetime(dt)
     if isinstance(i, NumberTypes) or (isinstance(i, str) and i.isdigit()):
-        return dt - datetime.timedelta(days=int(i))
+        return dt - datetime.timedelta(seconds=int(i))
     return calculate_datetime(dt, i, True)
 
 @typing_filter(int)
-- 
2.43.0


From 8346805ace2ad6656cb838fd750bf68bfad1f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 049/128] fix: negative intervals

---
 syncanysql/compiler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 68252be..00dfe58 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1765,7 +1765,12 @@ class Compiler(object):
                              for tuple_expression in expression.args["expressions"]]
             return ["#make", value_columns]
         elif isinstance(expression, sqlglot_expressions.Interval):
-            return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
+            value_expression = expression.args["this"]
+            if isinstance(value_expression, sqlglot_expressions.Neg):
+                interval_value = "-" + str(value_expression.args["this"].args["this"])
+            else:
+                interval_value = value_expression.args["this"]
+            return ["#const", {"value": interval_value, "unit": expression.args["unit"].args["this"]}]
         elif self.is_const(expression, config, arguments):
             return self.compile_const(expression, config, arguments, self.parse_const(expression, config, arguments))
         elif isinstance(expression, sqlglot_expressions.Not):
-- 
2.43.0


From 2b1a4785f8f516373268d5feb43a886ac53029db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 050/128] fix: whole days added to a date give a date, days
 past the end of a month are cut

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 63d8939..194caa7 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -17,7 +17,8 @@ TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MO
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
 def calculate_datetime(dt, interval, is_sub=False):
-    if not isinstance(dt, datetime.datetime):
+    if not isinstance(dt, datetime.datetime) and not (
+            isinstance(interval, dict) and interval["unit"].upper() in ("YEAR", "QUARTER", "MONTH", "WEEK", "DAY")):
         dt = mysql_datetime(dt)
 
     def calculate(unit, value):
@@ -25,7 +26,13 @@ def calculate_datetime(dt, interval, is_sub=False):
             months = value * 12 if unit == "YEAR" else (value * 3 if unit == "QUARTER" else value)
             months = dt.year * 12 + dt.month - 1 + (-months if is_sub else months)
             new_year, new_month = months // 12, months % 12 + 1
-            return dt.replace(year=new_year, month=new_month, day=min(dt.day, calendar.monthrange(new_year, new_month)[1]))
+            day = dt.day
+            while day >= 1:
+                try:
+                    return dt.replace(year=new_year, month=new_month, day=day)
+                except ValueError:
+                    day -= 1
+            return None
         if unit in TIMEDELTA_UNITS:
             td = datetime.timedelta(microseconds=value) if unit == "MICROSECOND" else datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
-- 
2.43.0


From 4c7237155c06604de93e9680b680fb678aff48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 051/128] fix: window ORDER BY with several keys sorts by each
 key in its own direction

---
 syncanysql/calculaters/__init__.py          |  1 +
 syncanysql/calculaters/window_calculater.py |  6 ++++++
 syncanysql/compiler.py                      | 10 ++++++++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 53b7ed9..5c2459c 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -36,6 +36,7 @@ SQL_CALCULATERS = {
     "group_bit_xor": AggregateGroupBitXorCalculater,
     "json_arrayagg": AggregateJsonArrayaggCalculater,
     "json_objectagg": AggregateJsonObjectaggCalculater,
+    "window_order_key": WindowOrderKeyCalculater,
     "row_number": WindowAggregateRowNumberCalculater,
     "rank": WindowAggregateRankCalculater,
     "dense_rank": WindowAggregateDenseRankCalculater,
diff --git a/syncanysql/calculaters/window_calculater.py b/syncanysql/calculaters/window_calculater.py
index e3ed1f6..0e95fad 100644
--- a/syncanysql/calculaters/window_calculater.py
+++ b/syncanysql/calculaters/window_calculater.py
@@ -3,10 +3,16 @@
 # create by: snower
 
 from syncany.calculaters.calculater import Calculater
+from syncany.utils import CmpValue
 from syncany.filters import IntFilter, FloatFilter
 from ..errors import SyncanySqlExecutorException
 
 
+class WindowOrderKeyCalculater(Calculater):
+    def calculate(self, value, desc):
+        return CmpValue(value, desc)
+
+
 class WindowAggregateCalculater(Calculater):
     def __init__(self, *args, **kwargs):
         super(WindowAggregateCalculater, self).__init__(*args, **kwargs)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 00dfe58..36f1271 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1495,8 +1495,14 @@ class Compiler(object):
             order_key = self.generate_sql(order_expression.args["this"])
             orders.append([order_key, order_expression.args.get("desc")])
             value_order_expressions.append(order_expression.args["this"])
-        return {"valuer": self.compile_window_key(value_order_expressions, config, arguments,
-                                                  primary_table, join_tables), "orders": orders}
+        order_column = self.compile_window_key(value_order_expressions, config, arguments, primary_table, join_tables)
+        if len(orders) > 1:
+            order_column = [["@window_order_key", valuer, ["#const", True if desc else False]]
+                            for valuer, (_, desc) in zip(order_column, orders)]
+            orders = [["order_key", False]]
+        else:
+            orders[0][0] = orders[0][0].replace(".", "_")
+        return {"valuer": order_column, "orders": orders}
 
     def compile_window_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
-- 
2.43.0


From d218bdd723c2964fb1e54baf3079afed3a17133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 052/128] fix: a column beside an aggregate or window function
 in an expression reads the table row

---
 syncanysql/compiler.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 36f1271..5a61c0d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1240,6 +1240,13 @@ class Compiler(object):
                 setattr(aggregate_expressions[i], "syncany_valuer",
                         [final_calculate, "$." + column_alias + "." + aggregate_value_key]
                         if final_calculate else ("$." + column_alias + "." + aggregate_value_key))
+            for column_expression in self.parse_outer_columns(expression, config, arguments, aggregate_expressions):
+                column_key = "column_%d" % id(column_expression)
+                value_column[1][column_key] = self.compile_aggregate_value(column_expression, config, arguments, primary_table,
+                                                                           join_tables, [column_expression])[0]
+                calculate_column[1][column_key] = "$$.value." + column_key
+                reduce_column[1][column_key] = "$$." + column_alias + "." + column_key
+                setattr(column_expression, "syncany_valuer", "$." + column_alias + "." + column_key)
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias,
                                                  join_tables, False)
             aggregate_column = {
@@ -1446,6 +1453,13 @@ class Compiler(object):
                 config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = copy.deepcopy(window_aggregate_column)
 
         if not (len(window_expressions) == 1 and window_expressions[0] is expression):
+            for column_expression in self.parse_outer_columns(expression, config, arguments, window_expressions):
+                value_column_alias = "__window_column_value_%d__" % id(column_expression)
+                value_column = self.compile_window_value(column_expression, config, arguments, primary_table,
+                                                         join_tables, [column_expression])[0]
+                config["schema"][value_column_alias] = value_column
+                setattr(column_expression, "syncany_valuer", "$." + value_column_alias)
+                config["aggregate"]["window_schema"][column_alias]["aggregate"][value_column_alias] = copy.deepcopy(value_column)
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias, join_tables, False)
             config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"].pop(column_alias, None)
         primary_table["select_columns"][column_alias] = expression
@@ -2380,6 +2394,23 @@ class Compiler(object):
                     continue
                 self.parse_window_aggregate(child_expression, config, arguments, window_aggregate_expressions)
 
+    def parse_outer_columns(self, expression, config, arguments, aggregate_expressions):
+        if any(expression is aggregate_expression for aggregate_expression in aggregate_expressions):
+            return []
+        if self.is_subquery(expression, config, arguments) or self.is_const(expression, config, arguments):
+            return []
+        if self.is_column(expression, config, arguments):
+            column = self.parse_column(expression, config, arguments)
+            if isinstance(config["schema"], dict) and not column["table_name"] and column["column_name"] in config["schema"]:
+                return []
+            return [expression]
+        columns = []
+        for child_expression in expression.args.values():
+            for child_expression_item in (child_expression if isinstance(child_expression, list) else [child_expression]):
+                if isinstance(child_expression_item, sqlglot_expressions.Expression):
+                    columns.extend(self.parse_outer_columns(child_expression_item, config, arguments, aggregate_expressions))
+        return columns
+
     def parse_subquery(self, expression, config, arguments, primary_table, join_tables):
         if isinstance(expression, sqlglot_expressions.Select):
             sub_expression = expression
-- 
2.43.0


From fba0ecde700c46497fa9741a263f775ad0327df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 053/128] fix: LIKE matches the whole text, _ one character and
 a backslash escapes

---
 .../calculaters/mysql_funcs/regexp_funcs.py       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 709833a..3fcd2bb 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,9 +111,20 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = ".*" if r == '%%' else "".join([rg.replace("%", ".*") for rg in re.escape(r).split("%%")])
+    s, r = str(s), str(r)
+    pattern, index = [], 0
+    while index < len(r):
+        if r[index] == "%":
+            pattern.append(".*")
+        elif r[index] == "_":
+            pattern.append(".")
+        else:
+            if r[index] == "\\" and index + 1 < len(r):
+                index += 1
+            pattern.append(re.escape(r[index]))
+        index += 1
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.fullmatch("".join(pattern), s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
 
-- 
2.43.0


From 57c75f86745a37f71425c2448eaa45dfed13ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 054/128] fix: LIKE in HAVING matches as LIKE elsewhere

---
 syncanysql/compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5a61c0d..4fc14e4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1966,8 +1966,7 @@ class Compiler(object):
             if not isinstance(right_calculater, list) or len(right_calculater) != 2 or right_calculater[0] != "#const":
                 raise SyncanySqlCompileException('error having condition, like condition value must be const, related sql "%s"'
                                                  % self.to_sql(expression))
-            return ["#if", ["@re::match", ".*" if right_calculater[1] == "%%" else right_calculater[1].replace("%", ".*")
-                .replace(".*.*", "%"), left_calculater], ["#const", 1], ["#const", 0]]
+            return ["@mysql::like", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From 9af2b65e830ecb58f0cc1a946fe7b60ec37f8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 055/128] fix: REGEXP matches anywhere in the text

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 3fcd2bb..24450db 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -29,7 +29,7 @@ def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(str(r), str(s), parse_flags(match_type)) else 0
     except:
         return 0
 
@@ -38,7 +38,7 @@ def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(str(r), str(s), parse_flags(match_type)) else 0
     except:
         return 0
 
-- 
2.43.0


From c97b492af13e4cd042231d453605094ad54a8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 056/128] fix: REGEXP_REPLACE keeps the text before the start
 position

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 24450db..2c641ba 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -71,7 +71,7 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
         flags = parse_flags(match_type)
         cs = s[pos-1:]
         if occurrence <= 0:
-            return re.sub(r, rs, cs, count=0, flags=flags)
+            return s[:pos-1] + re.sub(r, rs, cs, count=0, flags=flags)
         while cs:
             m = re.search(r, cs, flags)
             if not m:
-- 
2.43.0


From fccae4847f011e6ffb24c2bce62f50be7f9e9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:49 +0000
Subject: [PATCH 057/128] fix: HAVING evaluates BETWEEN, NOT and NULL operands
 of AND and OR as elsewhere

---
 syncanysql/compiler.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4fc14e4..a5a0387 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1860,19 +1860,21 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown calculate expression, related sql "%s"' % self.to_sql(expression))
 
     def compile_having_condition(self, expression, config, arguments, primary_table):
-        if isinstance(expression, sqlglot_expressions.And):
+        if isinstance(expression, (sqlglot_expressions.And, sqlglot_expressions.Or)):
             return [
-                "#if",
+                "@mysql::and" if isinstance(expression, sqlglot_expressions.And) else "@mysql::or",
                 self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table),
-                self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table),
-                ["#const", 0]
+                self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table)
             ]
-        if isinstance(expression, sqlglot_expressions.Or):
+        if isinstance(expression, sqlglot_expressions.Not):
+            return ["@mysql::not", self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)]
+        if isinstance(expression, sqlglot_expressions.Between):
             return [
-                "#if",
-                self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table),
-                ["#const", 1],
-                self.compile_having_condition(expression.args.get("expression"), config, arguments, primary_table)
+                "@mysql::and",
+                self.compile_having_condition(sqlglot_expressions.GTE(this=expression.args["this"], expression=expression.args["low"]),
+                                              config, arguments, primary_table),
+                self.compile_having_condition(sqlglot_expressions.LTE(this=expression.args["this"], expression=expression.args["high"]),
+                                              config, arguments, primary_table)
             ]
 
         def parse(expression):
-- 
2.43.0


From b8e498a668d5a8de0cb046fa8b30433f53300a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 058/128] fix: ORDER BY an alias used in HAVING sorts the
 result

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a5a0387..60ce75d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -564,7 +564,9 @@ class Compiler(object):
 
         having_expression = expression.args.get("having")
         if having_expression:
+            table_columns = dict(primary_table["columns"])
             having_condition = self.compile_having_condition(having_expression.args["this"], config, arguments, primary_table)
+            primary_table["columns"] = table_columns        # the columns of HAVING are columns of the result
             if having_condition:
                 config["intercept"] = having_condition
 
-- 
2.43.0


From 92845591728ebc38865453e9483e6ff5194778ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:42 +0000
Subject: [PATCH 059/128] fix: a simple CASE works as operand of IFNULL,
 COALESCE and CASE

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60ce75d..27bb8dd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1700,11 +1700,11 @@ class Compiler(object):
                         coalesce_value_column = parse_coalesce(coalesce_expressions[1:])
                     else:
                         coalesce_value_column = self.compile_calculate(coalesce_expressions[1], config, arguments, primary_table, column_join_tables, join_index)
-                    return ["#if", ["@is_null", coalesce_column], coalesce_value_column, coalesce_column]
+                    return ["#if", ["@is_null", copy.deepcopy(coalesce_column)], coalesce_value_column, coalesce_column]
                 value_column = parse_coalesce(expression.args.get("expressions"))
             else:
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
-            return ["#if", ["@is_null", condition_column], value_column, condition_column]
+            return ["#if", ["@is_null", copy.deepcopy(condition_column)], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
             if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
                                                     for case_expression in expression.args.get("ifs", [])]):
@@ -1732,7 +1732,7 @@ class Compiler(object):
                 if_value_column = self.compile_calculate(if_expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
                     "#if",
-                    if_value_column if value_column is None else ["@mysql::eq", value_column, if_value_column],
+                    if_value_column if value_column is None else ["@mysql::eq", copy.deepcopy(value_column), if_value_column],
                     self.compile_calculate(if_expression.args["true"], config, arguments, primary_table, column_join_tables,
                                            join_index) if if_expression.args.get("true") else ["#const", 1],
                     build_if(case_expressions[0], case_expressions[1:]) if case_expressions else defaul_column,
-- 
2.43.0


From 4481f9c9108b6cb2d488ae855fbcc19aca06248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 060/128] fix: a scalar subquery without rows is NULL inside
 expressions

---
 syncanysql/compiler.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 27bb8dd..8b898ee 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -995,7 +995,7 @@ class Compiler(object):
             if not isinstance(condition_expression, sqlglot_expressions.Expression):
                 return
             if self.is_subquery(condition_expression, config, arguments):
-                condition_query_condition = self.compile_query_condition(condition_expression, config, arguments, primary_table, join_tables, None)
+                condition_query_condition = self.compile_query_value(condition_expression, config, arguments, primary_table, join_tables)
                 setattr(condition_expression, "syncany_valuer", condition_query_condition)
                 return
             if self.is_column(condition_expression, config, arguments) or self.is_const(condition_expression, config, arguments):
@@ -1100,6 +1100,19 @@ class Compiler(object):
         return [join_key_columns, ["&.:=@execute_query_tasker::" + "+".join(join_keys), {}, {"task_config": subquery_config}],
                 subquery_interceptor_column, ":$." + column_name]
 
+    def compile_query_value(self, expression, config, arguments, primary_table, join_tables):
+        value_column = self.compile_query_condition(expression, config, arguments, primary_table, join_tables, None)
+        parent_expression = expression.parent
+        while isinstance(parent_expression, sqlglot_expressions.Paren):
+            parent_expression = parent_expression.parent
+        if isinstance(parent_expression, sqlglot_expressions.In) and expression is parent_expression.args.get("query"):
+            return value_column
+        if isinstance(parent_expression, (sqlglot_expressions.Binary, sqlglot_expressions.Unary, sqlglot_expressions.Between, sqlglot_expressions.If,
+                                          sqlglot_expressions.Case)) or (isinstance(parent_expression, sqlglot_expressions.Func)
+                                                                         and is_mysql_func(parent_expression.name.lower() or parent_expression.key.lower())):
+            return ["@convert_array", value_column, ":$.:0"]
+        return value_column
+
     def compile_query_condition_column(self, expression, config, arguments, primary_table, join_tables, expression_column=None, join_index=-1):
         if not expression_column and self.is_column(expression, config, arguments):
             expression_column = self.parse_column(expression, config, arguments)
@@ -1760,9 +1773,8 @@ class Compiler(object):
             return [self.compile_calculate(distinct_expression, config, arguments, primary_table, column_join_tables, join_index)
                     for distinct_expression in expression.args["expressions"]]
         elif self.is_subquery(expression, config, arguments):
-            return self.compile_query_condition(expression, config, arguments, primary_table,
-                                                {column_join_table["name"]: column_join_table for column_join_table in column_join_tables},
-                                                None)
+            return self.compile_query_value(expression, config, arguments, primary_table,
+                                            {column_join_table["name"]: column_join_table for column_join_table in column_join_tables})
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
-- 
2.43.0


From 8b23305c4e091f7f0ba6e4749abd2ee38d2f46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 061/128] fix: UNION pairs columns by position, ORDER BY and
 LIMIT after it apply to the whole

---
 syncanysql/compiler.py | 69 +++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8b898ee..42ac654 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -376,20 +376,62 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
     def compile_union(self, expression, config, arguments):
+        def build_subquery(query_expression, **select_args):
+            alias_expression = sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("__subquery_union_" + str(uuid.uuid1().int)))
+            return sqlglot_expressions.Select(**{"expressions": [sqlglot_expressions.Star()], "from": sqlglot_expressions.From(expressions=[
+                sqlglot_expressions.Subquery(this=query_expression, alias=alias_expression)]), **select_args})
+
+        # ORDER BY and LIMIT after the last unparenthesized select belong to the whole union
+        last_expression = expression
+        while isinstance(last_expression, sqlglot_expressions.Union):
+            last_modifiers = [key for key in ("order", "limit", "offset") if last_expression.args.get(key)]
+            if last_modifiers:
+                break
+            last_expression = last_expression.args["expression"]
+        if isinstance(last_expression, (sqlglot_expressions.Select, sqlglot_expressions.Union)):
+            modifiers = {key: last_expression.args[key] for key in ("order", "limit", "offset") if last_expression.args.get(key)}
+            if modifiers:
+                for key in modifiers:
+                    last_expression.set(key, None)
+                return self.compile_select(build_subquery(expression, **modifiers), config, arguments)
+
         select_expressions = []
         def parse(union_expression):
-            if isinstance(union_expression.args["this"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["this"])
-            else:
-                parse(union_expression.args["this"])
-            if isinstance(union_expression.args["expression"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["expression"])
-            else:
-                parse(union_expression.args["expression"])
+            if isinstance(union_expression, (sqlglot_expressions.Intersect, sqlglot_expressions.Except)):
+                raise SyncanySqlCompileException('unknown union, related sql "%s"' % self.to_sql(union_expression))
+            for query_expression in (union_expression.args["this"], union_expression.args["expression"]):
+                if isinstance(query_expression, sqlglot_expressions.Subquery):
+                    query_expression = query_expression.args["this"]
+                    if isinstance(query_expression, sqlglot_expressions.Union):
+                        query_expression = build_subquery(query_expression)
+                if isinstance(query_expression, sqlglot_expressions.Union):
+                    parse(query_expression)
+                else:
+                    select_expressions.append(query_expression)
         parse(expression)
 
+        # the columns are those of the first select, the other selects give theirs by position
+        def get_column_name(select_item):
+            return select_item.alias_or_name if isinstance(select_item, (sqlglot_expressions.Alias, sqlglot_expressions.Column)) else None
+
+        column_names = [get_column_name(select_item) or self.generate_sql(select_item) for select_item in select_expressions[0].args["expressions"]]
+        for i in range(1, len(select_expressions)):
+            select_items = select_expressions[i].args["expressions"]
+            if len(select_items) != len(column_names) or any([select_item.is_star for select_item in
+                                                              select_items + select_expressions[0].args["expressions"]]):
+                continue
+            for j in range(len(select_items)):
+                if not get_column_name(select_items[j]):
+                    select_items[j] = sqlglot_expressions.alias_(select_items[j], column_names[j], quoted=True)
+            select_names = [get_column_name(select_item) for select_item in select_items]
+            if select_names != column_names and len(set(select_names)) == len(select_names):
+                select_expressions[i].set("expressions", select_items)
+                select_expressions[i] = build_subquery(select_expressions[i], expressions=[
+                    sqlglot_expressions.alias_(sqlglot_expressions.column(sqlglot_expressions.to_identifier(select_name, quoted=True)), column_name, quoted=True)
+                    for select_name, column_name in zip(select_names, column_names)])
+
         query_name = "__unionquery_" + str(uuid.uuid1().int)
-        union_column_names, output_primary_key, output_type = None, None, "I"
+        output_primary_key, output_type = None, "I"
         for select_expression in select_expressions:
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
@@ -403,15 +445,6 @@ class Compiler(object):
                     config["schema"] = {}
                 for name in subquery_config["schema"]:
                     config["schema"][name] = "$." + name
-            if isinstance(subquery_config["schema"], dict):
-                if union_column_names is None:
-                    union_column_names = sorted(list(subquery_config["schema"].keys()))
-                else:
-                    subquery_column_names = sorted(list(subquery_config["schema"].keys()))
-                    for i in range(min(len(union_column_names), len(subquery_column_names))):
-                        if union_column_names[i] == subquery_column_names[i]:
-                            continue
-                        subquery_config["schema"][union_column_names[i]] = subquery_config["schema"][subquery_column_names[i]]
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
-- 
2.43.0


From 4092e810c354518cb1f86f8a128aab1f0e086c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:18 +0000
Subject: [PATCH 062/128] fix: UNION without ALL returns distinct rows

---
 syncanysql/compiler.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 42ac654..78b7630 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -395,11 +395,13 @@ class Compiler(object):
                     last_expression.set(key, None)
                 return self.compile_select(build_subquery(expression, **modifiers), config, arguments)
 
-        select_expressions = []
+        select_expressions, distinct_indexs = [], [0]
         def parse(union_expression):
             if isinstance(union_expression, (sqlglot_expressions.Intersect, sqlglot_expressions.Except)):
                 raise SyncanySqlCompileException('unknown union, related sql "%s"' % self.to_sql(union_expression))
             for query_expression in (union_expression.args["this"], union_expression.args["expression"]):
+                if union_expression.args.get("distinct") and query_expression is union_expression.args["expression"]:
+                    distinct_indexs.append(len(select_expressions) + 1)
                 if isinstance(query_expression, sqlglot_expressions.Subquery):
                     query_expression = query_expression.args["this"]
                     if isinstance(query_expression, sqlglot_expressions.Union):
@@ -415,6 +417,17 @@ class Compiler(object):
             return select_item.alias_or_name if isinstance(select_item, (sqlglot_expressions.Alias, sqlglot_expressions.Column)) else None
 
         column_names = [get_column_name(select_item) or self.generate_sql(select_item) for select_item in select_expressions[0].args["expressions"]]
+        is_recursive = isinstance(expression.parent, sqlglot_expressions.CTE) and expression.parent.parent.args.get("recursive")
+        if distinct_indexs[-1] and not is_recursive and not any([select_item.is_star for select_item in select_expressions[0].args["expressions"]]):
+            # the rows of all selects up to the last UNION without ALL are distinct
+            all_expression = select_expressions[0]
+            for select_expression in select_expressions[1:distinct_indexs[-1]]:
+                all_expression = sqlglot_expressions.Union(this=all_expression, expression=sqlglot_expressions.Subquery(this=select_expression), distinct=False)
+            distinct_expression = build_subquery(all_expression, distinct=sqlglot_expressions.Distinct(), expressions=[
+                sqlglot_expressions.column(sqlglot_expressions.to_identifier(column_name, quoted=True)) for column_name in column_names])
+            if distinct_indexs[-1] == len(select_expressions):
+                return self.compile_select(distinct_expression, config, arguments)
+            select_expressions = [distinct_expression] + select_expressions[distinct_indexs[-1]:]
         for i in range(1, len(select_expressions)):
             select_items = select_expressions[i].args["expressions"]
             if len(select_items) != len(column_names) or any([select_item.is_star for select_item in
-- 
2.43.0


From 12a525273a3763de8b6a0ad92aa958181e0cf822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:27 +0000
Subject: [PATCH 063/128] fix: a parenthesized UNION inside a UNION keeps its
 columns

---
 syncanysql/compiler.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 78b7630..f2e24c6 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -405,26 +405,37 @@ class Compiler(object):
                 if isinstance(query_expression, sqlglot_expressions.Subquery):
                     query_expression = query_expression.args["this"]
                     if isinstance(query_expression, sqlglot_expressions.Union):
-                        query_expression = build_subquery(query_expression)
+                        first_expression = query_expression
+                        while not isinstance(first_expression, sqlglot_expressions.Select):
+                            first_expression = first_expression.args["this"]
+                        query_expression = build_subquery(query_expression, expressions=build_columns(get_column_names(first_expression)))
                 if isinstance(query_expression, sqlglot_expressions.Union):
                     parse(query_expression)
                 else:
                     select_expressions.append(query_expression)
-        parse(expression)
 
         # the columns are those of the first select, the other selects give theirs by position
         def get_column_name(select_item):
             return select_item.alias_or_name if isinstance(select_item, (sqlglot_expressions.Alias, sqlglot_expressions.Column)) else None
 
-        column_names = [get_column_name(select_item) or self.generate_sql(select_item) for select_item in select_expressions[0].args["expressions"]]
+        def get_column_names(select_expression):
+            return ["*" if select_item.is_star else (get_column_name(select_item) or self.generate_sql(select_item))
+                    for select_item in select_expression.args["expressions"]]
+
+        def build_columns(names):
+            if "*" in names:
+                return [sqlglot_expressions.Star()]
+            return [sqlglot_expressions.column(sqlglot_expressions.to_identifier(name, quoted=True)) for name in names]
+
+        parse(expression)
+        column_names = get_column_names(select_expressions[0])
         is_recursive = isinstance(expression.parent, sqlglot_expressions.CTE) and expression.parent.parent.args.get("recursive")
         if distinct_indexs[-1] and not is_recursive and not any([select_item.is_star for select_item in select_expressions[0].args["expressions"]]):
             # the rows of all selects up to the last UNION without ALL are distinct
             all_expression = select_expressions[0]
             for select_expression in select_expressions[1:distinct_indexs[-1]]:
                 all_expression = sqlglot_expressions.Union(this=all_expression, expression=sqlglot_expressions.Subquery(this=select_expression), distinct=False)
-            distinct_expression = build_subquery(all_expression, distinct=sqlglot_expressions.Distinct(), expressions=[
-                sqlglot_expressions.column(sqlglot_expressions.to_identifier(column_name, quoted=True)) for column_name in column_names])
+            distinct_expression = build_subquery(all_expression, distinct=sqlglot_expressions.Distinct(), expressions=build_columns(column_names))
             if distinct_indexs[-1] == len(select_expressions):
                 return self.compile_select(distinct_expression, config, arguments)
             select_expressions = [distinct_expression] + select_expressions[distinct_indexs[-1]:]
-- 
2.43.0


From 965aff9cc724b544f606d6debdabfc07ee7869bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:22 +0000
Subject: [PATCH 064/128] fix: INSERT VALUES keeps every row's own value type
 and refuses values that are not constant

---
 syncanysql/compiler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f2e24c6..5effd72 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -362,10 +362,9 @@ class Compiler(object):
                 data = {}
                 for i in range(len(data_expression.args["expressions"])):
                     value_expression = data_expression.args["expressions"][i]
-                    value = self.parse_const(value_expression, config, arguments)["value"]
-                    if columns[i][1] is None:
-                        columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
-                    data[columns[i][0]] = value
+                    if i >= len(columns) or not self.is_const(value_expression, config, arguments):
+                        raise SyncanySqlCompileException('unknown insert into value, related sql "%s"' % self.to_sql(expression))
+                    data[columns[i][0]] = self.parse_const(value_expression, config, arguments)["value"]
                 datas.append(data)
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
-- 
2.43.0


From 0486be26c7fc13da139d9dad5768033ec2aa4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 065/128] fix: INSERT INTO .. UNION follows the table's update
 type

---
 syncanysql/compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5effd72..2155c2b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -454,7 +454,7 @@ class Compiler(object):
                     for select_name, column_name in zip(select_names, column_names)])
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
-        output_primary_key, output_type = None, "I"
+        output_primary_key, output_type = None, config["output"].split(" use ")[-1].strip()
         for select_expression in select_expressions:
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
@@ -470,8 +470,6 @@ class Compiler(object):
                     config["schema"][name] = "$." + name
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
-            if output_type == "I" and len(output_primary_key_type_info) >= 2:
-                output_type = output_primary_key_type_info[1].strip()
             config["dependencys"].append(subquery_config)
         config["input"] = "&.--." + query_name + "::" + output_primary_key
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
-- 
2.43.0


From 43722ec8bcc9e9f7e31d4da625ec3b3dea5386c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 066/128] fix: text constants keep characters from U+0080 to
 U+0100

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2155c2b..346ccdc 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2845,7 +2845,7 @@ class Compiler(object):
                 try:
                     escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
                     for c in value:
-                        if ord(c) <= 256:
+                        if ord(c) < 128:
                             escape_chars.append(c)
                             continue
                         if escape_chars:
-- 
2.43.0


From 617a19e489eee66cdcfcea4d85e2bc3bae3abf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:31 +0000
Subject: [PATCH 067/128] fix: minus applies to variables, booleans and bit
 literals, bit literals have their value

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 346ccdc..8c276a0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2860,7 +2860,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Boolean):
             value = expression.args["this"]
             typing_filter = "bool"
-        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.HexString)):
+        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.BitString)):
             value, typing_filter = int(expression.args["this"]), "int"
         elif isinstance(expression, sqlglot_expressions.Parameter):
             name = expression.args["this"].args["this"]
@@ -3009,7 +3009,7 @@ class Compiler(object):
 
     def is_const(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Neg):
-            return not isinstance(expression.args["this"], sqlglot_expressions.Neg) and self.is_const(expression.args["this"], config, arguments)
+            return isinstance(expression.args["this"], sqlglot_expressions.Literal) and expression.args["this"].is_number
         if isinstance(expression, sqlglot_expressions.Parameter):
             return not isinstance(expression, AssignParameter)
         return isinstance(expression, (sqlglot_expressions.Literal, sqlglot_expressions.Boolean,
-- 
2.43.0


From b29741e265dd6802075b523fcd7fc081d321103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:55 +0000
Subject: [PATCH 068/128] fix: minus before a text negates its number instead
 of reversing it

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8c276a0..feaaeb8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1643,8 +1643,8 @@ class Compiler(object):
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index,
                                                   expression.syncany_column, column_join_tables)
         if isinstance(expression, sqlglot_expressions.Neg):
-            return ["@neg", self.compile_calculate(expression.args["this"], config, arguments, primary_table, 
-                                                   column_join_tables, join_index)]
+            return ["@mysql::sub", ["#const", 0], self.compile_calculate(expression.args["this"], config, arguments, primary_table,
+                                                                         column_join_tables, join_index)]
         elif isinstance(expression, sqlglot_expressions.Anonymous):
             calculater_name = expression.args["this"].lower()
             if calculater_name == "get_value":
-- 
2.43.0


From 0c1f7d6a2c2abab031cf1877c1d416cbe99d108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 069/128] fix: text beginning with a signed number counts as
 that number

---
 syncanysql/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 48b4f9e..cf8b351 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -35,6 +35,8 @@ def parse_value(value):
 def parse_number(x, is_float=False):
     index, dot_index = -1, -1
     for i in range(len(x)):
+        if i == 0 and x[i] in "+-":
+            continue
         if x[i] in string.digits:
             index = i
             continue
-- 
2.43.0


From 3a52c792d04ce8c368f4af142259974e702d76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 070/128] fix: INSERT INTO t (columns) SELECT stores the values
 in those columns

---
 syncanysql/compiler.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index feaaeb8..7de4d6c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -349,6 +349,8 @@ class Compiler(object):
             select_expression = expression.args["expression"]
             if select_expression.args.get("with"):
                 self.compile_with(select_expression.args["with"], config, arguments)
+            if columns:
+                select_expression = self.compile_insert_columns(expression, select_expression, columns, config)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
@@ -374,6 +376,32 @@ class Compiler(object):
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
+    def compile_insert_columns(self, expression, select_expression, columns, config):
+        first_expression = select_expression
+        while not isinstance(first_expression, sqlglot_expressions.Select):
+            first_expression = first_expression.args["this"]
+        select_items = first_expression.args["expressions"]
+        if len(select_items) != len(columns) or any([select_item.is_star for select_item in select_items]):
+            raise SyncanySqlCompileException('error insert into, columns do not match select columns, related sql "%s"' % self.to_sql(expression))
+        column_names, select_names = [column_name for column_name, _ in columns], []
+        is_delete = config["output"].split(" use ")[-1].strip().upper() in ("UDI", "DI")
+        for i in range(len(select_items)):
+            if not isinstance(select_items[i], (sqlglot_expressions.Alias, sqlglot_expressions.Column)):
+                select_items[i] = sqlglot_expressions.alias_(select_items[i], column_names[i] if is_delete else "__insert_column_%d" % i, quoted=True)
+            select_names.append(select_items[i].alias_or_name)
+        first_expression.set("expressions", select_items)
+        if select_names == column_names:
+            return select_expression
+        if is_delete:
+            raise SyncanySqlCompileException('error insert into, select columns must be named as the insert columns, related sql "%s"'
+                                             % self.to_sql(expression))
+        select_expression.set("with", None)
+        alias_expression = sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("__subquery_insert_" + str(uuid.uuid1().int)))
+        return sqlglot_expressions.Select(**{"expressions": [
+            sqlglot_expressions.alias_(sqlglot_expressions.column(sqlglot_expressions.to_identifier(select_name, quoted=True)), column_name, quoted=True)
+            for select_name, column_name in zip(select_names, column_names)], "from": sqlglot_expressions.From(expressions=[
+                sqlglot_expressions.Subquery(this=select_expression, alias=alias_expression)])})
+
     def compile_union(self, expression, config, arguments):
         def build_subquery(query_expression, **select_args):
             alias_expression = sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("__subquery_union_" + str(uuid.uuid1().int)))
-- 
2.43.0


From e5f5115c91468283671d07be5df15404525bd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:24 +0000
Subject: [PATCH 071/128] fix: a column may be a negated or parenthesized
 expression without an alias

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7de4d6c..731f5e1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3049,7 +3049,7 @@ class Compiler(object):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
                                            sqlglot_expressions.LT, sqlglot_expressions.LTE, sqlglot_expressions.In, sqlglot_expressions.Not,
                                            sqlglot_expressions.Is, sqlglot_expressions.Between, sqlglot_expressions.Like, sqlglot_expressions.Func,
-                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate))
+                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate, sqlglot_expressions.Unary))
         return isinstance(expression, (sqlglot_expressions.Neg, sqlglot_expressions.Binary, sqlglot_expressions.Select,
                                        sqlglot_expressions.Subquery, sqlglot_expressions.Union,
                                        sqlglot_expressions.BitwiseNot, sqlglot_expressions.Tuple, sqlglot_expressions.Parameter))
-- 
2.43.0


From d0fbd15f9796de43c6d620939d3dd36f01388fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 072/128] fix: SET keeps the quotes and blanks inside a text
 value

---
 syncanysql/taskers/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..29ee571 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -49,7 +49,7 @@ class SetCommandTasker(object):
         if value[:1] in ('"', "'"):
             if value[:3] in ("'''", '"""'):
                 return value[3:-3].strip()
-            return value[1:-1].strip()
+            return value[1:-1].replace(value[0] * 2, value[0])
         if value.lower() == 'true':
             return True
         if value.lower() == 'false':
-- 
2.43.0


From 64aa61e93845f3cb4abf41f4a1a4482a83403fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:43 +0000
Subject: [PATCH 073/128] fix: IN, CASE and VALUES use the value a variable has
 when the statement runs

---
 syncanysql/compiler.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 731f5e1..7d20b6a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -359,6 +359,8 @@ class Compiler(object):
             values_expression = expression.args["expression"]
             if not values_expression.args.get("expressions"):
                 raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
+            if values_expression.find(sqlglot_expressions.Parameter):
+                return self.compile_insert_variables(expression, values_expression, columns, config, arguments)
             datas = []
             for data_expression in values_expression.args["expressions"]:
                 data = {}
@@ -376,6 +378,24 @@ class Compiler(object):
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
+    def compile_insert_variables(self, expression, values_expression, columns, config, arguments):
+        # the values of variables are known when the statement runs
+        output, select_expression = config["output"], None
+        for data_expression in values_expression.args["expressions"]:
+            value_expressions = data_expression.args["expressions"]
+            if len(value_expressions) > len(columns) or not all([self.is_const(value_expression, config, arguments) for value_expression in value_expressions]):
+                raise SyncanySqlCompileException('unknown insert into value, related sql "%s"' % self.to_sql(expression))
+            row_expression = sqlglot_expressions.Select(expressions=[
+                sqlglot_expressions.alias_(value_expressions[i] if i < len(value_expressions) else sqlglot_expressions.Null(), columns[i][0], quoted=True)
+                for i in range(len(columns))])
+            select_expression = row_expression if select_expression is None else \
+                sqlglot_expressions.Union(this=select_expression, expression=row_expression, distinct=False)
+        if isinstance(select_expression, sqlglot_expressions.Union):
+            self.compile_union(select_expression, config, arguments)
+        else:
+            self.compile_select(select_expression, config, arguments)
+        config["output"] = output
+
     def compile_insert_columns(self, expression, select_expression, columns, config):
         first_expression = select_expression
         while not isinstance(first_expression, sqlglot_expressions.Select):
@@ -988,7 +1008,7 @@ class Compiler(object):
                 return None, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
@@ -1801,7 +1821,7 @@ class Compiler(object):
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
             return ["#if", ["@is_null", copy.deepcopy(condition_column)], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
-            if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
+            if expression.args.get("this") and all([self.is_literal(case_expression.args["this"], config, arguments)
                                                     for case_expression in expression.args.get("ifs", [])]):
                 cases = {}
                 cases["#case"] = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
@@ -1873,7 +1893,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Star):
             return "$.*"
         elif isinstance(expression, sqlglot_expressions.Tuple):
-            if all([self.is_const(tuple_expression, config, arguments) for tuple_expression in expression.args["expressions"]]):
+            if all([self.is_literal(tuple_expression, config, arguments) for tuple_expression in expression.args["expressions"]]):
                 value_columns = [self.parse_const(tuple_expression, config, arguments)["value"]
                                  for tuple_expression in expression.args["expressions"]]
                 return ["#const", value_columns]
@@ -2006,7 +2026,7 @@ class Compiler(object):
                 return left_calculater, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_calculater, ["#const", value_items]
@@ -2324,7 +2344,7 @@ class Compiler(object):
                     value_column = ["@convert_array", value_column, ":$.:0"]
                 return False, condition_column, value_column
             if isinstance(value_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in value_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in value_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in value_expression]
                     return False, condition_column, ["#const", value_items]
@@ -3044,6 +3064,9 @@ class Compiler(object):
                                        sqlglot_expressions.Null, sqlglot_expressions.HexString, sqlglot_expressions.BitString,
                                        sqlglot_expressions.ByteString))
 
+    def is_literal(self, expression, config, arguments):
+        return self.is_const(expression, config, arguments) and not isinstance(expression, sqlglot_expressions.Parameter)
+
     def is_calculate(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Condition):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
-- 
2.43.0


From 0f4514a1099b19ca0f564b881023ca1bc31917da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 074/128] fix: IN over columns or one computed value in a join
 condition

---
 syncanysql/compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7d20b6a..86469d9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2321,7 +2321,10 @@ class Compiler(object):
                 return True, condition_column, None
 
             calculate_fields = []
-            if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
+            if condition_column and isinstance(value_expression, list):
+                for value_expression_item in value_expression:
+                    self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
+            elif condition_column and not self.is_subquery(value_expression, config, arguments):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             if not condition_column or calculate_fields or (condition_column["table_name"] != join_table["name"]
                                                             and not self.is_subquery(value_expression, config, arguments)):
@@ -2350,7 +2353,7 @@ class Compiler(object):
                     return False, condition_column, ["#const", value_items]
                 value_items = [self.compile_calculate(value_expression_item, config, arguments, primary_table, [])
                                for value_expression_item in value_expression]
-                return False, condition_column, ["#make", value_items]
+                return False, condition_column, ["@convert_array", ["#make", value_items]]
             return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
-- 
2.43.0


From 7c4658f1ed19cbf1c1869d9f76d68417ede85425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 075/128] fix: INSERT VALUES keeps the column types when a
 value is a variable

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 86469d9..aab8f73 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -390,6 +390,12 @@ class Compiler(object):
                 for i in range(len(columns))])
             select_expression = row_expression if select_expression is None else \
                 sqlglot_expressions.Union(this=select_expression, expression=row_expression, distinct=False)
+        if any([column_type for _, column_type in columns]):
+            select_expression = sqlglot_expressions.Select(**{"expressions": [
+                sqlglot_expressions.alias_(sqlglot_expressions.column(sqlglot_expressions.to_identifier(
+                    column_name + (("[" + column_type + "]") if column_type else ""), quoted=True)), column_name, quoted=True)
+                for column_name, column_type in columns], "from": sqlglot_expressions.From(expressions=[sqlglot_expressions.Subquery(
+                    this=select_expression, alias=sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("values")))])})
         if isinstance(select_expression, sqlglot_expressions.Union):
             self.compile_union(select_expression, config, arguments)
         else:
-- 
2.43.0


From 3dcab1602b490d518365536c1fb2f5ba0b1e716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 076/128] fix: SET takes a text followed by a comment or
 operator and a negative fraction for what it is

---
 syncanysql/taskers/set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 29ee571..00f2efb 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -49,6 +49,9 @@ class SetCommandTasker(object):
         if value[:1] in ('"', "'"):
             if value[:3] in ("'''", '"""'):
                 return value[3:-3].strip()
+            if len(value) < 2 or value[-1] != value[0] \
+                    or value[0] in value[1:-1].replace(value[0] * 2, "").replace("\\" + value[0], ""):
+                raise ValueError("unknown value: %s" % value)
             return value[1:-1].replace(value[0] * 2, value[0])
         if value.lower() == 'true':
             return True
@@ -59,7 +62,7 @@ class SetCommandTasker(object):
         if value.isdigit() or (value[0] == "-" and value[1:].isdigit()):
             return int(value)
         value_info = value.split(".")
-        if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+        if len(value_info) == 2 and (value_info[0].isdigit() or (value_info[0][:1] == "-" and value_info[0][1:].isdigit())) \
                 and value_info[1].isdigit():
             return float(value)
         raise ValueError("unknown value: %s" % value)
-- 
2.43.0


From 6cd0985449b5c8cefd04984dd13dfaf61e40383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 077/128] fix: a quote inside a comment does not swallow the
 statements after it

---
 syncanysql/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f2c38af..75afcc7 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -89,7 +89,7 @@ class SqlParser(object):
                 continue
             if self.sql[self.index] == "#":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
@@ -97,13 +97,16 @@ class SqlParser(object):
             segment = self.sql[self.index: self.index + 2]
             if segment == "--":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
                 continue
             if segment == "/*":
-                self.read_util("*/")
+                self.next()
+                self.next()
+                self.read_util("*/", ())
+                self.next()
                 self.next()
                 continue
             if self.sql[self.index] == ';':
-- 
2.43.0


From c19e3ee13154c1749944ce642e59da3bb5f3c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 078/128] fix: a statement may begin with a parenthesis

---
 syncanysql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index 75afcc7..b270581 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -118,7 +118,7 @@ class SqlParser(object):
                 start_index = None
                 self.next()
                 continue
-            if start_index is None and self.sql[self.index].isalpha():
+            if start_index is None and (self.sql[self.index].isalpha() or self.sql[self.index] == "("):
                 lineno, start_index = self.lineno, self.index
             self.next()
         if start_index is not None and start_index < self.index:
-- 
2.43.0


From fa615b43f939a04ddeb5105d4792d3f4e1174353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 079/128] fix: push_memory_datas and terminal of the module and
 of contexts call the methods that exist

---
 syncanysql/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index cac1494..152f31b 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -68,7 +68,7 @@ class ExecuterContext(object):
         return self.engine.pop_memory_datas(name)
 
     def push_memory_datas(self, name, datas):
-        return self.engine.push_datas(name, datas)
+        return self.engine.push_memory_datas(name, datas)
 
     def terminal(self):
         if not self.executor:
@@ -193,7 +193,7 @@ class ScriptEngine(object):
                 return
             self.executor.terminate()
             return
-        executer_context.terminate()
+        executer_context.terminal()
 
     def close(self):
         if self.manager:
@@ -249,7 +249,7 @@ def pop_memory_datas(name):
 
 
 def push_memory_datas(name, datas):
-    return ScriptEngine.instance().push_datas(name, datas)
+    return ScriptEngine.instance().push_memory_datas(name, datas)
 
 
 def terminal():
-- 
2.43.0


From 6d0817fcfd9faadd69beee4a1c60fe6df16a20a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:44 +0000
Subject: [PATCH 080/128] fix: a UNION without INSERT is printed

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index aab8f73..2b4031c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -508,7 +508,7 @@ class Compiler(object):
                     for select_name, column_name in zip(select_names, column_names)])
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
-        output_primary_key, output_type = None, config["output"].split(" use ")[-1].strip()
+        output_primary_key, output_type = None, (config["output"].split(" use ") + ["I"])[1].strip()
         for select_expression in select_expressions:
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
-- 
2.43.0


From 88ad09b9e9a2266699424ab9f867ed0ab04d5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:31 +0000
Subject: [PATCH 081/128] fix: a common table expression is gone after its
 statement and does not mix with a table of its name

---
 syncanysql/compiler.py      | 36 ++++++++++++++++++++++++------------
 syncanysql/taskers/query.py |  3 ++-
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2b4031c..d32f7dd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -146,6 +146,7 @@ class Compiler(object):
         self.env_variables = env_variables
         self.name = name
         self.mapping = {}
+        self.with_tables = {}
 
     def compile(self, sql, arguments):
         escape_sql = sql
@@ -259,23 +260,32 @@ class Compiler(object):
             "pipelines": []
         })
 
-        if expression.args.get("with"):
-            self.compile_with(expression.args.get("with"), config, arguments)
-        if isinstance(expression, sqlglot_expressions.Union):
-            self.compile_union(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Insert):
-            self.compile_insert_into(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Select):
-            self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
-        else:
-            raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        with_tables = dict(self.with_tables)
+        try:
+            if expression.args.get("with"):
+                self.compile_with(expression.args.get("with"), config, arguments)
+            if isinstance(expression, sqlglot_expressions.Union):
+                self.compile_union(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Insert):
+                self.compile_insert_into(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Select):
+                self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
+            else:
+                raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        finally:
+            self.with_tables = with_tables
         return config
 
     def compile_with(self, expression, config, arguments):
         for sub_expression in expression.args["expressions"]:
-            table_name = sub_expression.args["alias"].name
+            with_name = sub_expression.args["alias"].name
+            table_name = "__withquery_" + str(uuid.uuid1().int) + "_" + with_name
+            with_name = self.mapping.get(with_name, with_name)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
+            if expression.args.get("recursive"):
+                self.with_tables[with_name] = table_name
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            self.with_tables[with_name] = table_name
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -307,6 +317,7 @@ class Compiler(object):
 
     def compile_insert_into(self, expression, config, arguments):
         columns = []
+        with_tables, self.with_tables = self.with_tables, {}
         if isinstance(expression.args["this"], sqlglot_expressions.Table):
             table_info = self.parse_table(expression.args["this"], config, arguments)
         elif isinstance(expression.args["this"], sqlglot_expressions.Schema):
@@ -329,6 +340,7 @@ class Compiler(object):
                 columns.append([column_name, typing_filters[0] if typing_filters else None])
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
+        self.with_tables = with_tables
         if not expression.args.get("expression"):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
@@ -2812,7 +2824,7 @@ class Compiler(object):
                         database["format"] = formats[0]
                 db_name = database["name"]
             else:
-                db_name = "--"
+                db_name, table_name = "--", self.with_tables.get(table_name, table_name)
 
         return {
             "db": db_name,
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index a5e4503..80845d2 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -396,7 +396,8 @@ class QueryTasker(object):
                 self.temporary_memory_manager.use_collection(tasker.loader.name)
 
         if hasattr(tasker.outputer, "name"):
-            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_"):
+            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_") \
+                    or tasker.outputer.name.startswith("--.__withquery_"):
                 self.temporary_memory_manager.add_collection(tasker.outputer.name)
 
         loader_or_outputers = [tasker.loader, tasker.outputer] + list(tasker.join_loaders.values())
-- 
2.43.0


From 75f5a7fc2395a018e3131ac46965a2e400b8f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 082/128] fix: WITH name (columns) names the columns of the
 common table expression

---
 syncanysql/compiler.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d32f7dd..cbb9e30 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -284,7 +284,10 @@ class Compiler(object):
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             if expression.args.get("recursive"):
                 self.with_tables[with_name] = table_name
-            subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            query_expression = sub_expression.args["this"]
+            if sub_expression.args["alias"].args.get("columns"):
+                query_expression = self.compile_with_columns(sub_expression, query_expression, expression.args.get("recursive"))
+            subquery_config = self.compile_query(query_expression, subquery_arguments)
             self.with_tables[with_name] = table_name
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
@@ -297,6 +300,31 @@ class Compiler(object):
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
             config["dependencys"].append(subquery_config)
 
+    def compile_with_columns(self, expression, query_expression, is_recursive):
+        column_names = [column_expression.name for column_expression in expression.args["alias"].args["columns"]]
+        first_expression = query_expression
+        while not isinstance(first_expression, sqlglot_expressions.Select):
+            first_expression = first_expression.args["this"]
+        select_items = first_expression.args["expressions"]
+        if len(select_items) != len(column_names) or any([select_item.is_star for select_item in select_items]):
+            raise SyncanySqlCompileException('error with columns, columns do not match select columns, related sql "%s"' % self.to_sql(expression))
+        if is_recursive:
+            first_expression.set("expressions", [sqlglot_expressions.alias_(select_item.unalias(), column_name, quoted=True)
+                                                 for select_item, column_name in zip(select_items, column_names)])
+            return query_expression
+        for i in range(len(select_items)):
+            if not isinstance(select_items[i], (sqlglot_expressions.Alias, sqlglot_expressions.Column)):
+                select_items[i] = sqlglot_expressions.alias_(select_items[i], "__with_column_%d" % i, quoted=True)
+        first_expression.set("expressions", select_items)
+        select_names = [select_item.alias_or_name for select_item in select_items]
+        if select_names == column_names:
+            return query_expression
+        alias_expression = sqlglot_expressions.TableAlias(this=sqlglot_expressions.to_identifier("__subquery_with_" + str(uuid.uuid1().int)))
+        return sqlglot_expressions.Select(**{"expressions": [
+            sqlglot_expressions.alias_(sqlglot_expressions.column(sqlglot_expressions.to_identifier(select_name, quoted=True)), column_name, quoted=True)
+            for select_name, column_name in zip(select_names, column_names)], "from": sqlglot_expressions.From(expressions=[
+                sqlglot_expressions.Subquery(this=query_expression, alias=alias_expression)])})
+
     def compile_subquery(self, expression, arguments):
         if not isinstance(expression, sqlglot_expressions.Subquery):
             table_name = "anonymous"
-- 
2.43.0


From 0a37d47ca893c603727193f7960819223417fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 083/128] fix: statements of a script that failed do not run
 with the next script

---
 syncanysql/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 152f31b..3fdc75c 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -55,8 +55,12 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
-            executor.run("execute[%d]" % self._execute_index, sqls)
-            executor.execute()
+            try:
+                executor.run("execute[%d]" % self._execute_index, sqls)
+                executor.execute()
+            except BaseException:
+                executor.runners.clear()
+                raise
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
-- 
2.43.0


From fce03df59fa0824ebc58c854e69d00d2ab35158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 084/128] fix: the current context and executor are None in a
 thread that has none

---
 syncanysql/__init__.py | 2 +-
 syncanysql/executor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 3fdc75c..443b546 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -31,7 +31,7 @@ class ExecuterContext(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executer_context
+        return getattr(cls._thread_local, "current_executer_context", None)
 
     def __init__(self, engine, executor):
         self.engine = engine
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 84f3af6..8f14ffb 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -88,7 +88,7 @@ class Executor(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executor
+        return getattr(cls._thread_local, "current_executor", None)
 
     def __init__(self, manager, session_config, parent_executor=None):
         self.manager = manager
-- 
2.43.0


From de383e3c264a5fc814cb23c02225f92eb3798103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 085/128] fix: SET GLOBAL of a configuration key takes effect

---
 syncanysql/taskers/set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 00f2efb..47f4d60 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -33,7 +33,8 @@ class SetCommandTasker(object):
     def set_config(self, session_config, key, is_global=False):
         if is_global:
             session_config.global_config.set(key, self.parse_value(self.config["value"].strip()))
-            session_config.merge()
+            session_config.merged_config = None
+            session_config.tasker_extend_config = None
             return
         session_config.set(key, self.parse_value(self.config["value"].strip()))
 
-- 
2.43.0


From 66483889ddfea6b35cffae60e69c44d22ab653b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 086/128] fix: ${name} is replaced once, by the variable of
 exactly that name if there is one

---
 syncanysql/executor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 8f14ffb..d4aeb09 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -102,11 +102,14 @@ class Executor(object):
                                           else self.global_env_variables)
 
     def compile_variable(self, sql):
-        variables = ENV_VARIABLE_RE.findall(sql)
-        for variable, default_value in variables:
+        def compile_value(match):
+            variable, default_value = match.groups("")
             variable_name = variable[2:-1].split(":")[0]
             try:
-                variable_value = self.env_variables.get_value(variable_name.lower())
+                try:
+                    variable_value = self.env_variables.get_value(variable_name)
+                except KeyError:
+                    variable_value = self.env_variables.get_value(variable_name.lower())
             except KeyError:
                 try:
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
@@ -136,8 +139,8 @@ class Executor(object):
                 if isinstance(value, SequenceTypes):
                     return "(" + ",".join([format_variable_value(v) for v in value]) + ")"
                 return str(value)
-            sql = sql.replace(variable, format_variable_value(variable_value))
-        return sql
+            return format_variable_value(variable_value)
+        return ENV_VARIABLE_RE.sub(compile_value, sql)
 
     def run(self, name, sqls):
         self._thread_local.current_executor = self
-- 
2.43.0


From dcc97ba51bbea7edceacabe43a4719c3b42f3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:51 +0000
Subject: [PATCH 087/128] fix: SQL given on the standard input runs without
 further arguments

---
 syncanysql/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index 94db858..af0249e 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -57,7 +57,7 @@ def main():
                     sql_parser = SqlParser(content[1:-1] if content[0] in ('"', "'") and content[-1] in ('"', "'") else content)
                     sqls = sql_parser.split()
                     executor.run("pipe", sqls)
-                    get_logger().info("execute pipe sql start %d task", sys.argv[1], executor.get_tasker_index())
+                    get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
                     except Exception as e:
-- 
2.43.0


From ee647d8cff1debb92396b89a059ed75d0de8340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 088/128] fix: a --name=value argument keeps the = signs of its
 value

---
 syncanysql/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index d4aeb09..06bab5e 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -55,7 +55,7 @@ class EnvVariables(dict):
         for arg in sys.argv:
             if arg[:2] != "--":
                 continue
-            arg_info = arg[2:].split("=")
+            arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
             if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
                 arg_value = arg_value[1:-1]
-- 
2.43.0


From 68bf03dcb85cdaed5868f6e4b3f20e9c8a30cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:31 +0000
Subject: [PATCH 089/128] fix: quotes and semicolons in comments do not matter
 for the end of a statement typed in

---
 syncanysql/parser.py | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index b270581..cc9e06f 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -76,38 +76,42 @@ class SqlParser(object):
             return start_index, end_index, segment
         raise EOFError()
 
+    def skip_quoted_or_comment(self):
+        if self.sql[self.index] in ('`', '"', "'"):
+            self.skip_escape(self.sql[self.index])
+            return True
+        segment = self.sql[self.index: self.index + 2]
+        if self.sql[self.index] == "#" or segment == "--":
+            try:
+                self.read_util('\n', ())
+            except EOFError:
+                pass
+            self.next()
+            return True
+        if segment == "/*":
+            self.next()
+            self.next()
+            self.read_util("*/", ())
+            self.next()
+            self.next()
+            return True
+        return False
+
     def read_util_complete(self):
+        start_index = self.index
         while self.index < self.len:
-            return self.read_util(';', ('`', '"', "'"))
+            if self.skip_quoted_or_comment():
+                continue
+            if self.sql[self.index] == ';':
+                return start_index, self.index, self.sql[start_index: self.index]
+            self.next()
+        raise EOFError(self.sql[start_index:])
 
     def split(self):
         segments = []
         lineno, start_index = 0, None
         while self.index < self.len:
-            if self.sql[self.index] in ('`', '"', "'"):
-                self.skip_escape(self.sql[self.index])
-                continue
-            if self.sql[self.index] == "#":
-                try:
-                    self.read_util('\n', ())
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            segment = self.sql[self.index: self.index + 2]
-            if segment == "--":
-                try:
-                    self.read_util('\n', ())
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            if segment == "/*":
-                self.next()
-                self.next()
-                self.read_util("*/", ())
-                self.next()
-                self.next()
+            if self.skip_quoted_or_comment():
                 continue
             if self.sql[self.index] == ';':
                 if start_index is None:
-- 
2.43.0


From 88247220271796abfd6b3819823b37287c6fbfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:33 +0000
Subject: [PATCH 090/128] fix: every statement typed into the prompt at once
 runs, and EXIT ends it like exit

---
 syncanysql/prompt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 7210708..feb9a7c 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -13,7 +13,7 @@ from prompt_toolkit.styles import Style
 from prompt_toolkit.filters import Condition
 from prompt_toolkit.cursor_shapes import CursorShape
 from .version import version
-from .parser import SqlParser, SqlSegment
+from .parser import SqlParser
 from .calculaters import mysql_funcs
 
 SQL_COMPLETER_WORDS = [
@@ -226,7 +226,10 @@ class CliPrompt(object):
                 if text[0] == "%":
                     self.run_magic_cmd(text[1:])
                     continue
-                self.executor.run("cli", [SqlSegment(text, lineno)])
+                sqls = SqlParser(text).split()
+                for sql in sqls:
+                    sql.lineno += lineno - 1
+                self.executor.run("cli", sqls)
                 try:
                     self.executor.execute()
                 except Exception as e:
@@ -243,7 +246,7 @@ class CliPrompt(object):
 
     def check_complete(self, content):
         content = content.strip()
-        if not content or content[:4] == "exit" or content[0] in ("!", "%"):
+        if not content or content[:4].lower() == "exit" or content[0] in ("!", "%"):
             return False
         sql_parser = SqlParser(content)
         try:
-- 
2.43.0


From 24e99b187ba40cb5843c4b0aeb63baeb06d072f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:36 +0000
Subject: [PATCH 091/128] fix: scripts that are not writable can be run

---
 syncanysql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index cc9e06f..52b089e 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -135,7 +135,7 @@ class FileParser(object):
         self.filename = filename
 
     def load(self):
-        with open(self.filename, "r+", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
+        with open(self.filename, "r", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
             content = fp.read()
         if isinstance(self.filename, str) and self.filename[-5:].lower() == ".prql":
             try:
-- 
2.43.0


From 09cc1079a3d094452851a439da22e20f8ec922e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 092/128] fix: a backslash does not escape the backtick that
 ends a name

---
 syncanysql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index 52b089e..d410fcd 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -47,7 +47,7 @@ class SqlParser(object):
                 if self.sql[backslash] != '\\':
                     break
                 backslash -= 1
-            if (self.index - backslash + 1) % 2 != 0:
+            if c != '`' and (self.index - backslash + 1) % 2 != 0:
                 self.next()
                 continue
             self.next()
-- 
2.43.0


From 08ab7e6c5e3453e8014f43bc3236470f6f79eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 093/128] fix: configuration files are merged in the documented
 order

---
 syncanysql/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8fd3fa3..39dd359 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -131,8 +131,8 @@ class GlobalConfig(object):
         home_config_path, cwd_config_path = self.get_home(), os.path.abspath(os.getcwd())
         if home_config_path not in sys.path:
             sys.path.append(home_config_path)
-        for filename in {os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
-                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")}:
+        for filename in (os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
+                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")):
             if not os.path.exists(filename):
                 continue
             if "extends" not in self.config or not isinstance(self.config["extends"], list):
-- 
2.43.0


From 51801f26e6ddfcb28df21f87f495fc50c9fd337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:14 +0000
Subject: [PATCH 094/128] fix: HOME and SYNCANY_HOME in the names of initial
 scripts

---
 syncanysql/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 39dd359..e57d900 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -187,6 +187,8 @@ class GlobalConfig(object):
 
         init_execute_files = []
         for init_execute_file in self.config.pop("executes", []):
+            init_execute_file = init_execute_file.replace("${SYNCANY_HOME}", home_config_path) \
+                .replace("${HOME}", os.path.expanduser('~'))
             if os.path.exists(init_execute_file):
                 init_execute_files.append(init_execute_file)
             elif os.path.exists(os.path.join(home_config_path, init_execute_file)):
-- 
2.43.0


From a0ffb3a920f328469e1a350dd9563b4670a9b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 095/128] fix: a virtual view set in a session does not hide
 the other virtual views of its database

---
 syncanysql/config.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index e57d900..e1f351a 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -244,7 +244,10 @@ class GlobalConfig(object):
                     vs = {c["name"]: c for c in self.config[k]}
                     for d in v:
                         if d["name"] in vs:
+                            virtual_views = self.merge_virtual_views(vs[d["name"]], d)
                             vs[d["name"]].update(d)
+                            if virtual_views:
+                                vs[d["name"]]["virtual_views"] = virtual_views
                         else:
                             self.config[k].append(d)
             elif k == "pipelines":
@@ -265,6 +268,13 @@ class GlobalConfig(object):
             else:
                 self.config[k] = v
 
+    def merge_virtual_views(self, *configs):
+        virtual_views = {}
+        for config in configs:
+            for virtual_view in config.get("virtual_views") or []:
+                virtual_views[virtual_view["name"]] = virtual_view
+        return list(virtual_views.values())
+
     def config_logging(self, isatty=True):
         logfile = self.config.get("logfile", os.environ.get("SYNCANY_LOGFILE", None))
         if not logfile or logfile == "-":
-- 
2.43.0


From bab3ba9c8012f001831f6847bc5c242b6f962b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 096/128] fix: a database's own encoding and time formats are
 kept

---
 syncanysql/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index e1f351a..ce3a701 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -177,13 +177,13 @@ class GlobalConfig(object):
             if database["driver"] not in ("textline", "json", "csv"):
                 continue
             if encoding:
-                database["encoding"] = encoding
+                database.setdefault("encoding", encoding)
             if datetime_format:
-                database["datetime_format"] = datetime_format
+                database.setdefault("datetime_format", datetime_format)
             if date_format:
-                database["date_format"] = date_format
+                database.setdefault("date_format", date_format)
             if time_format:
-                database["time_format"] = time_format
+                database.setdefault("time_format", time_format)
 
         init_execute_files = []
         for init_execute_file in self.config.pop("executes", []):
-- 
2.43.0


From d699c1c23244709337703f9b1e354f8be47db0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:23 +0000
Subject: [PATCH 097/128] fix: configuration set outside a session after its
 first statement is seen in it

---
 syncanysql/config.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index ce3a701..e859336 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -25,6 +25,10 @@ CONST_CONFIG_KEYS = ("@verbose", "@timeout", "@limit", "@batch", "@streaming", "
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
+        self.version = 0
+
+    def get_version(self):
+        return (self.version,)
 
     def get_home(self):
         if "SYNCANY_HOME" in os.environ:
@@ -35,6 +39,7 @@ class GlobalConfig(object):
         return self.config
 
     def set(self, key, value):
+        self.version += 1
         if not isinstance(key, SequenceTypes):
             key = str(key).split(".")
         if not key:
@@ -307,10 +312,16 @@ class SessionConfig(GlobalConfig):
         self.global_config = global_config
         self.parent_config = parent_config
         self.merged_config = None
+        self.merged_version = None
         self.tasker_extend_config = None
 
+    def get_version(self):
+        return (self.version,) + self.parent_config.get_version()
+
     def get(self):
-        if self.merged_config is None:
+        if self.merged_config is None or self.merged_version != self.get_version():
+            self.merged_version = self.get_version()
+            self.tasker_extend_config = None
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
                 self.merge_config(copy.deepcopy(self.parent_config.get()))
@@ -331,8 +342,8 @@ class SessionConfig(GlobalConfig):
         return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
 
     def get_tasker_extend_config(self):
+        merged_config = self.get()
         if self.tasker_extend_config is None:
-            merged_config = self.get()
             self.tasker_extend_config = {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS
                                          if key in merged_config}
         return self.tasker_extend_config
-- 
2.43.0


From c080b324284b1c46caec5cd908486fd273ce662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 098/128] fix: SET of a database parameter accepts texts and
 numbers

---
 syncanysql/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index e859336..920ad88 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -100,7 +100,7 @@ class GlobalConfig(object):
                     try:
                         set_database[key[2]] = json.loads(value)
                     except:
-                        pass
+                        set_database[key[2]] = value
         elif key[0] in ("imports", "sources"):
             if key[0] not in self.config:
                 self.config[key[0]] = {}
-- 
2.43.0


From 970403d99952b35b6f260b136269b749c12b7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:56 +0000
Subject: [PATCH 099/128] fix: SET of a cache

---
 syncanysql/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 920ad88..19d4734 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -50,18 +50,18 @@ class GlobalConfig(object):
             else:
                 self.config[key[0]] = value
             return
-        if key[0] == "databases":
+        if key[0] in ("databases", "caches"):
             set_database = None
-            for database in self.config["databases"]:
+            for database in self.config[key[0]]:
                 if database["name"] == key[1]:
                     set_database = database
                     break
             if not set_database:
                 set_database = {"name": key[1]}
-                self.config["databases"].append(set_database)
+                self.config[key[0]].append(set_database)
             if len(key) <= 2:
                 if value is None:
-                    self.config["databases"].remove(set_database)
+                    self.config[key[0]].remove(set_database)
                 else:
                     try:
                         set_database.clear()
@@ -69,7 +69,7 @@ class GlobalConfig(object):
                         set_database.update(json.loads(value))
                     except:
                         pass
-            elif key[2] == "virtual_views":
+            elif key[0] == "databases" and key[2] == "virtual_views":
                 if "virtual_views" not in set_database:
                     set_database["virtual_views"] = []
                 set_virtual_view = None
@@ -108,7 +108,7 @@ class GlobalConfig(object):
                 self.config[key[0]].pop(key[1], None)
             else:
                 self.config[key[0]][key[1]] = value
-        elif key[0] in ("defines", "variables", "options", "caches"):
+        elif key[0] in ("defines", "variables", "options"):
             if key[0] not in self.config:
                 self.config[key[0]] = {}
             if value is None:
-- 
2.43.0


From 7ed648eeb8e9d3dcf96cf45869ce9aa45b0a3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:06 +0000
Subject: [PATCH 100/128] fix: SET @virtual_views.database.name sets the
 virtual view of that database

---
 syncanysql/taskers/set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 47f4d60..0aa7f6a 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -14,7 +14,8 @@ class SetCommandTasker(object):
         if name in ("databases", "imports", "sources", "defines", "variables", "options", "caches"):
             self.set_config(session_config, key[1:], is_global)
         elif name == "virtual_views":
-            self.set_config(session_config, "databases." + key[1:], is_global)
+            names = key.split(".")
+            self.set_config(session_config, ".".join(["databases", names[1], "virtual_views"] + names[2:]), is_global)
         elif key[:7] == "@config":
             self.set_config(session_config, key[8:].strip(), is_global)
         else:
-- 
2.43.0


From 092ca722084d82cf2a251fc50bf8df76615453c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:06 +0000
Subject: [PATCH 101/128] fix: the configuration given to an engine is not
 changed by it

---
 syncanysql/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 19d4734..1f59a69 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -146,7 +146,7 @@ class GlobalConfig(object):
                 self.config["extends"].append(filename)
         self.load_config()
         if custom_config and isinstance(custom_config, dict):
-            self.merge_config(custom_config)
+            self.merge_config(copy.deepcopy(custom_config))
         pypackage_paths = self.config.get("pypackage_paths")
         if pypackage_paths:
             if isinstance(pypackage_paths, str):
-- 
2.43.0


From 3bc5c20bf3028360bb2043db16f69dc00f02b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:14 +0000
Subject: [PATCH 102/128] fix: a query reads the variable it assigns from the
 engine while the context has none of its own

---
 syncanysql/taskers/into.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7ee101d..62c20b5 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -10,9 +10,10 @@ class IntoTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
-            if variable in executor.env_variables:
-                continue
-            executor.env_variables[variable] = None
+            try:
+                executor.env_variables.get_value(variable)
+            except KeyError:
+                executor.env_variables[variable] = None
         self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
@@ -49,16 +50,11 @@ class IntoTasker(object):
                     value = [{key: data.get(key) for key in schema_keys} for data in datas]
 
             if len(self.config["variables"]) == 1:
-                if value is None:
-                    if self.config["variables"][0] in executor.env_variables:
-                        executor.env_variables[self.config["variables"][0]] = None
-                else:
-                    executor.env_variables[self.config["variables"][0]] = value
+                executor.env_variables[self.config["variables"][0]] = value
             else:
                 for i in range(len(self.config["variables"])):
                     if i >= len(schema_keys):
-                        if self.config["variables"][i] in executor.env_variables:
-                            executor.env_variables[self.config["variables"][i]] = None
+                        executor.env_variables[self.config["variables"][i]] = None
                         continue
                     if isinstance(value, dict):
                         executor.env_variables[self.config["variables"][i]] = value[schema_keys[i]]
-- 
2.43.0


From 04b47cf0edbba550440558b75a1428b513e61e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 103/128] fix: EXECUTE takes the name of the script in quotes
 and before a comment

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cbb9e30..61a575c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -193,9 +193,9 @@ class Compiler(object):
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
                 return SetCommandTasker(config)
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
-                filename = self.parse_const(expression.args["expression"], {}, arguments)["value"]
-                if filename and filename[0] == '`':
-                    filename = filename[1:-1]
+                filename = self.parse_const(expression.args["expression"], {}, arguments)["value"].strip()
+                if filename[:1] in ('`', '"', "'") and filename[0] in filename[1:]:
+                    filename = filename[1:filename.index(filename[0], 1)]
                 if filename in self.mapping:
                     filename = self.mapping[filename]
                 return ExecuteTasker({"filename": filename})
-- 
2.43.0


From 8681f91853842e28ee317fdc397ceb73b9152f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:49 +0000
Subject: [PATCH 104/128] fix: an interrupted SELECT ... INTO leaves no rows
 behind

---
 syncanysql/taskers/into.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 62c20b5..7b2f75e 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -27,12 +27,13 @@ class IntoTasker(object):
             database = core_tasker.outputer.db
             name = core_tasker.outputer.name
             schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
-            self.tasker.run(executor, session_config, manager)
-
-            query = database.query(name, ["id"])
-            datas = query.commit()
-            delete = database.delete(name, ["id"])
-            delete.commit()
+            try:
+                self.tasker.run(executor, session_config, manager)
+                query = database.query(name, ["id"])
+                datas = query.commit()
+            finally:
+                delete = database.delete(name, ["id"])
+                delete.commit()
 
             if not schema_keys:
                 value = datas[0] if len(datas) == 1 else datas
-- 
2.43.0


From 62c0969d6371e4868c80fc53a027ec84ee712a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:51 +0000
Subject: [PATCH 105/128] fix: leaving an inner engine context makes the outer
 one current again

---
 syncanysql/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 443b546..a8faba8 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -36,6 +36,7 @@ class ExecuterContext(object):
     def __init__(self, engine, executor):
         self.engine = engine
         self.executor = executor
+        self.outer_contexts = []
 
     def get_variable(self, name, default=None):
         if name and name[0] != "@":
@@ -80,11 +81,12 @@ class ExecuterContext(object):
         self.executor.terminate()
 
     def __enter__(self):
+        self.outer_contexts.append(self.current())
         self._thread_local.current_executer_context = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executer_context = None
+        self._thread_local.current_executer_context = self.outer_contexts.pop()
 
 
 class ScriptEngine(object):
-- 
2.43.0


From 961d944609981c1f835ae810846536fdb8bb8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 106/128] fix: SELECT ... INTO stores the result of aggregates
 that are reduced from several steps

---
 syncanysql/taskers/into.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7b2f75e..f3f9fd4 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -7,6 +7,7 @@ class IntoTasker(object):
     def __init__(self, tasker, config):
         self.tasker = tasker
         self.config = config
+        self.schema_keys = None
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
@@ -14,6 +15,8 @@ class IntoTasker(object):
                 executor.env_variables.get_value(variable)
             except KeyError:
                 executor.env_variables[variable] = None
+        if isinstance(self.tasker.config["schema"], dict):
+            self.schema_keys = tuple(self.tasker.config["schema"].keys())
         self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
@@ -25,8 +28,7 @@ class IntoTasker(object):
             if not core_tasker:
                 return 1
             database = core_tasker.outputer.db
-            name = core_tasker.outputer.name
-            schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
+            name, schema_keys = "--.__into_" + str(id(self)), self.schema_keys
             try:
                 self.tasker.run(executor, session_config, manager)
                 query = database.query(name, ["id"])
-- 
2.43.0


From 83023d1db1fde44248d71f0b8ff49efa90965e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 107/128] fix: backslashes and quotes within string literals

---
 syncanysql/compiler.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 61a575c..5a741f5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -46,6 +46,26 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         BIT_STRINGS = [("b'", "'"), ("B'", "'"), ("0b", "")]
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
+        def _extract_string(self, delimiter):
+            # escape sequences are kept, they are decoded when the literal is compiled
+            chars = []
+            while True:
+                if self._char == "\\" and not self._end:
+                    chars.append(self._char + self._peek)
+                    self._advance(2)
+                    continue
+                if self._chars(len(delimiter)) == delimiter:
+                    if len(delimiter) != 1 or self._peek != delimiter:
+                        if len(delimiter) > 1:
+                            self._advance(len(delimiter) - 1)
+                        break
+                    self._advance()
+                elif self._end:
+                    raise RuntimeError("Missing %s from %s:%s" % (delimiter, self._line, self._start))
+                chars.append(self._char)
+                self._advance()
+            return "".join(chars)
+
     class Parser(sqlglot_parser.Parser):
         TERM = {token_type: term for token_type, term in sqlglot_parser.Parser.TERM.items()
                 if term is not sqlglot_expressions.Mod}
@@ -134,7 +154,6 @@ class CompilerDialect(sqlglot_dialects.Dialect):
 
 
 class Compiler(object):
-    ESCAPE_CHARS = ['\\\\a', '\\\\b', '\\\\f', '\\\\n', '\\\\r', '\\\\t', '\\\\v', '\\\\0']
     TYPE_FILTERS = {"int": "int", "float": "float", "str": "str", "string": "str", "bytes": "bytes", 'bool': 'bool', 'array': 'array', 'set': 'set',
                    'map': 'map', "objectid": "objectid", "uuid": "uuid", "datetime": "datetime", "date": "date", "time": "time",
                    "char": "str", "varchar": "str", "nchar": "str", "text": "str", "mediumtext": "str", "tinytext": "str",
@@ -149,12 +168,8 @@ class Compiler(object):
         self.with_tables = {}
 
     def compile(self, sql, arguments):
-        escape_sql = sql
-        if sql[:4].lower() not in ("set ", "use ") and "\\\\" in sql:
-            for escape_char in self.ESCAPE_CHARS:
-                escape_sql = escape_sql.replace(escape_char, "\\\\\\" + escape_char)
         try:
-            expression = maybe_parse(self.parse_mapping(escape_sql), dialect=CompilerDialect)
+            expression = maybe_parse(self.parse_mapping(sql), dialect=CompilerDialect)
             return self.compile_expression(expression, arguments)
         except ParseError as e:
             if not e.errors:
-- 
2.43.0


From 5175fd36f08dc6380678cab89f74fbb6b26a5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:27 +0000
Subject: [PATCH 108/128] fix: quotes and backticks in comments, string
 literals and names in backticks

---
 syncanysql/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index d410fcd..2c2ec73 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -69,11 +69,11 @@ class SqlParser(object):
 
     def read_segment(self, c='`'):
         while self.index < self.len:
-            self.read_util(c)
-            self.next()
-            start_index, end_index, segment = self.read_util(c)
-            self.next()
-            return start_index, end_index, segment
+            if self.sql[self.index] == c:
+                start_index, end_index, segment = self.skip_escape(c)
+                return start_index + 1, end_index - 1, segment[1:-1]
+            if not self.skip_quoted_or_comment():
+                self.next()
         raise EOFError()
 
     def skip_quoted_or_comment(self):
-- 
2.43.0


From 28da0710791e2c85613d2505ab4840a6ff6539e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 109/128] fix: CONVERT converts to the named type, CAST AS TIME
 gives a time

---
 syncanysql/compiler.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5a741f5..c797779 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -100,6 +100,26 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         def _parse_bitwise_xor(self):
             return self._parse_tokens(self._parse_unary, {sqlglot_parser.TokenType.CARET: sqlglot_expressions.BitwiseXor})
 
+        def _parse_types(self, check_func=False):
+            is_time = self._curr and self._curr.token_type == sqlglot_parser.TokenType.TIME
+            this = sqlglot_parser.Parser._parse_types(self, check_func)
+            if is_time and isinstance(this, sqlglot_expressions.DataType) \
+                    and this.this == sqlglot_expressions.DataType.Type.TIMESTAMP:
+                this.set("this", sqlglot_expressions.DataType.Type.TIME)
+            return this
+
+        def _parse_convert(self, strict):
+            this = self._parse_conjunction()
+            if self._match(sqlglot_parser.TokenType.USING):
+                to = self.expression(sqlglot_expressions.CharacterSet, this=self._parse_var())
+            elif self._match(sqlglot_parser.TokenType.COMMA):
+                to = self._parse_types()
+                if not to:
+                    self.raise_error("Expected TYPE after CONVERT")
+            else:
+                to = None
+            return self.expression(sqlglot_expressions.Cast if strict else sqlglot_expressions.TryCast, this=this, to=to)
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From e37aa2567258553caae65942b457aa4c7ce3abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 110/128] fix: SET of a variable keeps the quotes its text
 begins and ends with

---
 syncanysql/taskers/set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 0aa7f6a..bf81ee0 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -20,7 +20,7 @@ class SetCommandTasker(object):
             self.set_config(session_config, key[8:].strip(), is_global)
         else:
             try:
-                self.set_env_variable(executor, key, self.parse_value(self.config["value"].strip()), is_global)
+                self.set_env_variable(executor, key, self.parse_value(self.config["value"].strip(), False), is_global)
             except ValueError as e:
                 if key[:1] == "@":
                     try:
@@ -45,11 +45,11 @@ class SetCommandTasker(object):
             return
         executor.env_variables[key] = value
 
-    def parse_value(self, value):
+    def parse_value(self, value, triple_quotes=True):
         if not isinstance(value, str):
             return value
         if value[:1] in ('"', "'"):
-            if value[:3] in ("'''", '"""'):
+            if triple_quotes and value[:3] in ("'''", '"""'):
                 return value[3:-3].strip()
             if len(value) < 2 or value[-1] != value[0] \
                     or value[0] in value[1:-1].replace(value[0] * 2, "").replace("\\" + value[0], ""):
-- 
2.43.0


From 1e9a0752a61663c93a90671d6c3ffc4ade537cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:41 +0000
Subject: [PATCH 111/128] fix: a WHERE condition on CAST of a column compares
 the converted value

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c797779..72d0144 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1074,6 +1074,10 @@ class Compiler(object):
                 left_expression, right_expression = expression.args["this"], expression.args["field"]
             else:
                 left_expression, right_expression = expression.args["this"], expression.args["expression"]
+            if isinstance(left_expression, sqlglot_expressions.Cast) or \
+                    (isinstance(right_expression, sqlglot_expressions.Cast) and has_column_expression(right_expression)):
+                # the data source compares the column without the conversion
+                return None, None
 
             left_column = None
             if self.is_column(left_expression, config, arguments):
-- 
2.43.0


From 4e14f18134f4740befb93d1b8039441f3f474a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 112/128] fix: a table alias in backticks may hold any
 character

---
 syncanysql/compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 72d0144..ae01c93 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3091,7 +3091,7 @@ class Compiler(object):
 
     def parse_mapping(self, sql):
         parser = SqlParser(sql)
-        segments = []
+        segments, segment_names = [], {}
         last_start_index, last_end_index = 0, 0
 
         def get_allow_segment(segment):
@@ -3108,9 +3108,10 @@ class Compiler(object):
                 start_index, end_index, segment = parser.read_segment()
                 allow_segment = get_allow_segment(segment)
                 if allow_segment != segment:
-                    allow_segment = allow_segment + "_" + str(uuid.uuid1().int)
-                    self.mapping[allow_segment] = segment
-                    segment = allow_segment
+                    if segment not in segment_names:
+                        segment_names[segment] = allow_segment + "_" + str(uuid.uuid1().int)
+                        self.mapping[segment_names[segment]] = segment
+                    segment = segment_names[segment]
                 segments.append(parser.sql[last_end_index: start_index])
                 segments.append(segment)
                 last_start_index, last_end_index = start_index, end_index
-- 
2.43.0


From 71a778dc5b18fbf519092d538be01d0168f10b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:50 +0000
Subject: [PATCH 113/128] fix: a date compared with text in a condition
 compares its text

---
 .../calculaters/mysql_funcs/logical_funcs.py  | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index a85a6e8..973683f 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -2,11 +2,40 @@
 # 2023/5/29
 # create by: snower
 
+import datetime
 from syncany.calculaters import typing_filter
+from syncany.utils import ensure_timezone
 from ...utils import NumberDecimalTypes, ensure_number, ensure_str
 
+TemporalTypes = (datetime.date, datetime.time)
+
+def temporal_str(value, other):
+    if isinstance(value, datetime.datetime):
+        text = value.strftime("%Y-%m-%d %H:%M:%S")
+    elif isinstance(value, datetime.date):
+        return ensure_str(value) + (" 00:00:00" if len(other) > 10 else "")
+    else:
+        text = value.strftime("%H:%M:%S")
+    return text + (".%06d" % value.microsecond if value.microsecond else "")
+
+def ensure_comparable(a, b):
+    if isinstance(a, str):
+        if isinstance(b, datetime.datetime) and len(a) == 10:
+            a += " 00:00:00"
+        return a, temporal_str(b, a)
+    if isinstance(b, str):
+        b, a = ensure_comparable(b, a)
+        return a, b
+    if isinstance(a, datetime.date) and isinstance(b, datetime.date):
+        if isinstance(a, datetime.datetime) or isinstance(b, datetime.datetime):
+            return tuple(ensure_timezone(x if isinstance(x, datetime.datetime) else datetime.datetime(x.year, x.month, x.day))
+                         for x in (a, b))
+    return a, b
+
 @typing_filter(int)
 def mysql_eq(a, b):
+    if isinstance(a, TemporalTypes) or isinstance(b, TemporalTypes):
+        a, b = ensure_comparable(a, b)
     if a.__class__ == b.__class__:
         if a is None:
             return None
@@ -35,6 +64,8 @@ def mysql_eq(a, b):
 
 @typing_filter(int)
 def mysql_neq(a, b):
+    if isinstance(a, TemporalTypes) or isinstance(b, TemporalTypes):
+        a, b = ensure_comparable(a, b)
     if a.__class__ == b.__class__:
         if a is None:
             return None
@@ -63,6 +94,8 @@ def mysql_neq(a, b):
 
 @typing_filter(int)
 def mysql_gt(a, b):
+    if isinstance(a, TemporalTypes) or isinstance(b, TemporalTypes):
+        a, b = ensure_comparable(a, b)
     if a.__class__ == b.__class__:
         if a is None:
             return None
@@ -94,6 +127,8 @@ def mysql_gt(a, b):
 
 @typing_filter(int)
 def mysql_gte(a, b):
+    if isinstance(a, TemporalTypes) or isinstance(b, TemporalTypes):
+        a, b = ensure_comparable(a, b)
     if a.__class__ == b.__class__:
         if a is None:
             return None
@@ -125,6 +160,8 @@ def mysql_gte(a, b):
 
 @typing_filter(int)
 def mysql_lt(a, b):
+    if isinstance(a, TemporalTypes) or isinstance(b, TemporalTypes):
+        a, b = ensure_comparable(a, b)
     if a.__class__ == b.__class__:
         if a is None:
             return None
@@ -156,6 +193,8 @@ def mysql_lt(a, b):
 
 @typing_filter(int)
 def mysql_lte(a, b):
+    if isinstance(a, TemporalTypes) or isinstance(b, TemporalTypes):
+        a, b = ensure_comparable(a, b)
     if a.__class__ == b.__class__:
         if a is None:
             return None
-- 
2.43.0


From a210f93413f3f9951e4b11a6ac73aaa748ee65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 114/128] fix: ORDER BY of a name or conversion in the select
 list sorts by its value there

---
 syncanysql/compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ae01c93..fcf5db4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2184,7 +2184,8 @@ class Compiler(object):
     def compile_order(self, expression, config, arguments, primary_table):
         primary_sort_keys, sort_keys = [], []
         for order_expression in expression:
-            if not self.is_column(order_expression.args["this"], config, arguments):
+            is_column = self.is_column(order_expression.args["this"], config, arguments, check_convert_type=False)
+            if not is_column or self.parse_column(order_expression.args["this"], config, arguments)["typing_filters"]:
                 if isinstance(config["schema"], dict):
                     if self.generate_sql(order_expression.args["this"]) in config["schema"]:
                         sort_keys.append((self.generate_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
@@ -2197,6 +2198,7 @@ class Compiler(object):
                             break
                     if has_column:
                         continue
+            if not is_column:
                 raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
                                                  % self.to_sql(expression))
             column = self.parse_column(order_expression.args["this"], config, arguments)
@@ -2204,7 +2206,9 @@ class Compiler(object):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and not primary_table["table_alias"]:
                 if not config.get("aggregate"):
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
+                    if column["column_name"] not in config["schema"] or (
+                            column["column_name"] in primary_table["columns"] and
+                            config["schema"][column["column_name"]] == "$." + column["column_name"]):
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
                 elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
                     if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
-- 
2.43.0


From dea7189bb76339d6a826af37bd508dd83c357418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:36 +0000
Subject: [PATCH 115/128] fix: ORDER BY of a name in the select list of a
 grouped query sorts by its value there

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fcf5db4..2320a45 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2211,7 +2211,9 @@ class Compiler(object):
                             config["schema"][column["column_name"]] == "$." + column["column_name"]):
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
                 elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
+                    if column["column_name"] not in config["schema"] or (
+                            column["column_name"] in primary_table["columns"] and
+                            config["schema"][column["column_name"]] == "$." + column["column_name"]):
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and primary_table["table_alias"]:
                 if not config.get("aggregate"):
-- 
2.43.0


From 9e961336c684c04e39cb62e36d2ba1fab4e34edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:47 +0000
Subject: [PATCH 116/128] fix: a script run by a function of a running
 statement does not run the statements after that one

---
 syncanysql/__init__.py | 9 +++++----
 syncanysql/executor.py | 7 +++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index a8faba8..89f4c0d 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -5,6 +5,7 @@
 from .version import version, version_info
 
 import threading
+from collections import deque
 from syncany.loaders import Loader, register_loader
 from syncany.outputers import Outputer, register_outputer
 from syncany.valuers import Valuer, register_valuer
@@ -56,12 +57,12 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
+            outer_runners, executor.runners = executor.runners, deque()
             try:
                 executor.run("execute[%d]" % self._execute_index, sqls)
                 executor.execute()
-            except BaseException:
-                executor.runners.clear()
-                raise
+            finally:
+                executor.runners = outer_runners
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
@@ -120,8 +121,8 @@ class ScriptEngine(object):
         if init_execute_files:
             for init_execute_file in init_execute_files:
                 file_parser = FileParser(init_execute_file)
-                self.executor.run("init " + init_execute_file, file_parser.load())
                 with self.executor as executor:
+                    executor.run("init " + init_execute_file, file_parser.load())
                     executor.execute()
 
     def get_variable(self, name, default=None):
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 06bab5e..136ee5e 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -95,6 +95,7 @@ class Executor(object):
         self.session_config = session_config
         self.parent_executor = parent_executor
         self.runners = deque()
+        self.outer_executors = []
         self.tasker = None
         if self.global_env_variables is None:
             self.__class__.global_env_variables = EnvVariables.build_global(session_config)
@@ -172,12 +173,13 @@ class Executor(object):
 
     def execute(self):
         self._thread_local.current_executor = self
+        outer_tasker = self.tasker
         while self.runners:
             self.tasker = self.runners.popleft()
             try:
                 self.tasker.run(self, self.session_config, self.manager)
             finally:
-                self.tasker = None
+                self.tasker = outer_tasker
 
     def terminate(self):
         if not self.tasker:
@@ -207,11 +209,12 @@ class Executor(object):
             database.close()
 
     def __enter__(self):
+        self.outer_executors.append(self.current())
         self._thread_local.current_executor = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executor = self.parent_executor
+        self._thread_local.current_executor = self.outer_executors.pop()
 
     def distribute_tasker_index(self):
         if self.parent_executor is not None:
-- 
2.43.0


From b5c6cc31078c2b1f6906c51784457e9d6d719f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:16 +0000
Subject: [PATCH 117/128] fix: JSON_SET and JSON_REMOVE do not change the
 document they are given

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 4bc6b4d..47fab7a 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -2,6 +2,7 @@
 # 2023/3/14
 # create by: snower
 
+import copy
 import json
 from syncany.calculaters import typing_filter
 
@@ -248,6 +249,8 @@ def mysql_json_set(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         if not isinstance(json_doc, ArrayObjectTypes):
             json_doc = set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
@@ -261,6 +264,8 @@ def mysql_json_remove(json_doc, *paths):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for path in paths:
         remove_json_path_value(json_doc, path)
     return json_doc
-- 
2.43.0


From 4dda60abc98cc1b12a5d5bb17b859c98bac6a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:19 +0000
Subject: [PATCH 118/128] fix: JSON_REMOVE removes what the whole path names,
 not the array element on its way

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 47fab7a..e566e1c 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -155,8 +155,9 @@ def remove_json_path_value(json_data, json_path):
                         del json_data[json_path_key]
                         return json_data
                     if json_path_key < len(json_data):
-                        del json_data[json_path_key]
-                continue
+                        json_data = json_data[json_path_key]
+                        continue
+                return json_data
             if not isinstance(json_data, dict):
                 return json_data
             if json_path_key not in json_data:
-- 
2.43.0


From 556715056d0a4b408b4601146c4fbc0a8e6fc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:22 +0000
Subject: [PATCH 119/128] fix: JSON_CONTAINS finds the candidate within arrays
 and objects, also without a path

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index e566e1c..6944caa 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -198,8 +198,16 @@ def json_array_append(json_doc, *path_vals):
             json_value.append(path_vals[i * 2 + 1])
     return json_doc
 
+def contains_json_value(target, candidate):
+    if isinstance(target, list):
+        return all([any([contains_json_value(value, candidate_value) for value in target])
+                    for candidate_value in (candidate if isinstance(candidate, list) else [candidate])])
+    if isinstance(target, dict) and isinstance(candidate, dict):
+        return all([key in target and contains_json_value(target[key], value) for key, value in candidate.items()])
+    return target == candidate and isinstance(target, bool) == isinstance(candidate, bool)
+
 @typing_filter(int)
-def mysql_json_contains(target, candidate, path):
+def mysql_json_contains(target, candidate, path="$"):
     if isinstance(target, str):
         try:
             target = json.loads(target)
@@ -211,7 +219,7 @@ def mysql_json_contains(target, candidate, path):
         except:
             pass
     target_value = get_json_path_value(target, path)
-    return 1 if target_value == candidate else 0
+    return 1 if contains_json_value(target_value, candidate) else 0
 
 
 @typing_filter(int)
-- 
2.43.0


From 59dcc5fdf5e08ebbb1604f95cda5d1c5a4d129f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 120/128] fix: names in quotes in JSON paths

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 6944caa..30ec424 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -13,6 +13,9 @@ ArrayObjectTypes = (list, dict)
 def parse_json_path(json_path):
     if not json_path:
         return []
+    if json_path[0] == '"' and '"' in json_path[1:]:
+        end_index = json_path.index('"', 1)
+        return [json_path[1:end_index]] + parse_json_path(json_path[end_index + 1:].strip("."))
     try:
         dot_index = json_path.index(".")
     except ValueError:
-- 
2.43.0


From 8f28c5beb0e0c7a13ac2cc0798376918aee0da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:36 +0000
Subject: [PATCH 121/128] fix: JSON_CONTAINS_PATH finds a path whose value is
 null

---
 .../calculaters/mysql_funcs/json_funcs.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 30ec424..db78dcb 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -57,7 +57,7 @@ def parse_json_path(json_path):
         return json_path_keys
 
 
-def get_json_path_value(json_data, json_path):
+def get_json_path_value(json_data, json_path, missing_value=None):
     if json_data is None:
         raise ValueError('value is None')
     if json_path and json_path[:2] == "$.":
@@ -71,10 +71,10 @@ def get_json_path_value(json_data, json_path):
             if isinstance(json_path_key, int):
                 if isinstance(json_data, ArrayStringTypes):
                     if json_path_key >= len(json_data):
-                        return None
+                        return missing_value
                     json_data = json_data[json_path_key]
                     continue
-                return None
+                return missing_value
             if json_path_key == "*":
                 if i + 1 >= len(json_path_keys):
                     return json_data
@@ -83,14 +83,14 @@ def get_json_path_value(json_data, json_path):
                 result = []
                 for d in json_data:
                     v = get_value(d, json_path_keys[i + 1:])
-                    if v is None:
+                    if v is None or v is missing_value:
                         continue
                     result.append(v)
                 return result
             if not isinstance(json_data, dict):
-                return None
+                return missing_value
             if json_path_key not in json_data:
-                return None
+                return missing_value
             json_data = json_data[json_path_key]
         return json_data
     return get_value(json_data, parse_json_path(json_path))
@@ -234,12 +234,13 @@ def mysql_json_contains_path(json_doc, one_or_all, *paths):
             pass
     if not one_or_all:
         one_or_all = "one"
+    missing_value = object()
     for path in paths:
-        json_value = get_json_path_value(json_doc, path)
+        json_value = get_json_path_value(json_doc, path, missing_value)
         if one_or_all.lower() == "one":
-            if json_value is not None:
+            if json_value is not missing_value:
                 return 1
-        elif json_value is None:
+        elif json_value is missing_value:
             return 0
     return 0 if one_or_all.lower() == "one" else 1
 
-- 
2.43.0


From cfdd20fb2290cb342745678a7ed0cdf155a72415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:57 +0000
Subject: [PATCH 122/128] fix: JSON_LENGTH of a scalar is 1, of a missing value
 NULL; JSON_VALID of NULL is NULL

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index db78dcb..3633657 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -322,15 +322,22 @@ def mysql_json_length(json_doc, path=None):
             json_doc = json.loads(json_doc)
         except:
             pass
+    elif json_doc is None:
+        return None
     if path:
-        json_doc = get_json_path_value(json_doc, path)
+        missing_value = object()
+        json_doc = get_json_path_value(json_doc, path, missing_value)
+        if json_doc is missing_value:
+            return None
     if not isinstance(json_doc, ArrayObjectTypes):
-        return 0
+        return 1
     return len(json_doc)
 
 
 @typing_filter(int)
 def mysql_json_valid(val):
+    if val is None:
+        return None
     if isinstance(val, str):
         try:
             json.loads(val)
-- 
2.43.0


From e4f53a488502307043df3ef0f63cf1c8d6efcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:29 +0000
Subject: [PATCH 123/128] fix: the value of a command line option loses no
 character to a quote that is not closed

---
 syncanysql/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 136ee5e..7dc09af 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -57,7 +57,7 @@ class EnvVariables(dict):
                 continue
             arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
-            if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
+            if isinstance(arg_value, str) and len(arg_value) >= 2 and arg_value[0] in ('"', "'") and arg_value[-1] == arg_value[0]:
                 arg_value = arg_value[1:-1]
             env_variables[arg_info[0]] = arg_value
         return env_variables
-- 
2.43.0


From 2221ec5dd4d2c7c68fe055a178d5037e069eb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:36 +0000
Subject: [PATCH 124/128] fix: statements before one that cannot be compiled do
 not run with the next line of the prompt

---
 syncanysql/prompt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index feb9a7c..f26e639 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -229,8 +229,8 @@ class CliPrompt(object):
                 sqls = SqlParser(text).split()
                 for sql in sqls:
                     sql.lineno += lineno - 1
-                self.executor.run("cli", sqls)
                 try:
+                    self.executor.run("cli", sqls)
                     self.executor.execute()
                 except Exception as e:
                     print(e.__class__.__name__ + ": " + str(e))
-- 
2.43.0


From 66e4536b04bfa882c525df20fd74b74466130fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:34 +0000
Subject: [PATCH 125/128] fix: comments before the file of EXECUTE or the value
 of SET are skipped

---
 syncanysql/compiler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2320a45..e5e2974 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -225,10 +225,10 @@ class Compiler(object):
                     value = expression.args["expression"].split("=")
                 else:
                     value = self.parse_const(expression.args["expression"], {}, arguments)["value"].split("=")
-                config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
+                config = {"key": value[0].strip(), "value": self.skip_comments("=".join(value[1:]))}
                 return SetCommandTasker(config)
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
-                filename = self.parse_const(expression.args["expression"], {}, arguments)["value"].strip()
+                filename = self.skip_comments(self.parse_const(expression.args["expression"], {}, arguments)["value"])
                 if filename[:1] in ('`', '"', "'") and filename[0] in filename[1:]:
                     filename = filename[1:filename.index(filename[0], 1)]
                 if filename in self.mapping:
@@ -249,6 +249,14 @@ class Compiler(object):
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
+    def skip_comments(self, sql):
+        sql = sql.strip()
+        while sql[:1] == "#" or sql[:2] in ("--", "/*"):
+            sql_parser = SqlParser(sql)
+            sql_parser.skip_quoted_or_comment()
+            sql = sql[sql_parser.index:].strip()
+        return sql
+
     def compile_delete(self, expression, arguments):
         config = self.config.create_tasker_config()
         config.update({
-- 
2.43.0


From 52bbc5e7b0e4b7043461e1182956cfdb3829ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:11 +0000
Subject: [PATCH 126/128] fix: comments before the = of SET are skipped

---
 syncanysql/compiler.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e5e2974..6e469df 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -222,11 +222,10 @@ class Compiler(object):
             if expression.args["this"].lower() == "set" and (isinstance(expression.args["expression"], str)
                                                              or self.is_const(expression.args["expression"], {}, arguments)):
                 if isinstance(expression.args["expression"], str):
-                    value = expression.args["expression"].split("=")
+                    value = expression.args["expression"]
                 else:
-                    value = self.parse_const(expression.args["expression"], {}, arguments)["value"].split("=")
-                config = {"key": value[0].strip(), "value": self.skip_comments("=".join(value[1:]))}
-                return SetCommandTasker(config)
+                    value = self.parse_const(expression.args["expression"], {}, arguments)["value"]
+                return SetCommandTasker(self.parse_set(value))
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
                 filename = self.skip_comments(self.parse_const(expression.args["expression"], {}, arguments)["value"])
                 if filename[:1] in ('`', '"', "'") and filename[0] in filename[1:]:
@@ -244,11 +243,21 @@ class Compiler(object):
         elif isinstance(expression, sqlglot.expressions.Set) and expression.args.get("expressions") and len(expression.args.get("expressions")) == 1:
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
-                value = self.generate_sql(set_item_expression).split("=")
-                config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
-                return SetCommandTasker(config)
+                return SetCommandTasker(self.parse_set(self.generate_sql(set_item_expression)))
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
+    def parse_set(self, sql):
+        key, sql_parser = "", SqlParser(sql)
+        while sql_parser.index < sql_parser.len and sql[sql_parser.index] != "=":
+            start_index = sql_parser.index
+            if not sql_parser.skip_quoted_or_comment():
+                sql_parser.next()
+            elif sql[start_index] not in ('`', '"', "'"):
+                key += " "
+                continue
+            key += sql[start_index: sql_parser.index]
+        return {"key": key.strip(), "value": self.skip_comments(sql[sql_parser.index + 1:])}
+
     def skip_comments(self, sql):
         sql = sql.strip()
         while sql[:1] == "#" or sql[:2] in ("--", "/*"):
-- 
2.43.0


From 888dfebcd3baa42ce5e5dd43a1de0ec9b8fd54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:28 +0000
Subject: [PATCH 127/128] fix: SET of an expression and EXPLAIN keep escaped
 quotes and names in backticks

---
 syncanysql/compiler.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6e469df..cbde1d8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -167,6 +167,20 @@ class CompilerDialect(sqlglot_dialects.Dialect):
             AssignParameter: lambda self, e: self.assign_parameter_sql(e),
         }
 
+        def literal_sql(self, expression):
+            if not expression.is_string:
+                return sqlglot_generator.Generator.literal_sql(self, expression)
+            # escape sequences are kept in the literal, only the quotes outside of them are doubled
+            text, chars, index = expression.args["this"] or "", [], 0
+            while index < len(text):
+                if text[index] == "\\":
+                    chars.append(text[index: index + 2])
+                    index += 2
+                    continue
+                chars.append("''" if text[index] == "'" else text[index])
+                index += 1
+            return "'" + "".join(chars) + "'"
+
         def assign_parameter_sql(self, expression):
             this = self.sql(expression, "this")
             this = f"{{{this}}}" if expression.args.get("wrapped") else f"{this}"
@@ -217,17 +231,13 @@ class Compiler(object):
             return IntoTasker(query_tasker, self.compile_select_into(expression.args.get("into"), arguments))
         elif isinstance(expression, sqlglot_expressions.Command):
             if expression.args["this"].lower() == "explain" and self.is_const(expression.args["expression"], {}, arguments):
-                return ExplainTasker(self.compile(self.parse_const(expression.args["expression"], {}, arguments)["value"],
-                                                  arguments), self.to_sql(expression.args["expression"]))
+                return ExplainTasker(self.compile(self.parse_command(expression, arguments), arguments),
+                                     self.to_sql(expression.args["expression"]))
             if expression.args["this"].lower() == "set" and (isinstance(expression.args["expression"], str)
                                                              or self.is_const(expression.args["expression"], {}, arguments)):
-                if isinstance(expression.args["expression"], str):
-                    value = expression.args["expression"]
-                else:
-                    value = self.parse_const(expression.args["expression"], {}, arguments)["value"]
-                return SetCommandTasker(self.parse_set(value))
+                return SetCommandTasker(self.parse_set(self.parse_command(expression, arguments)))
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
-                filename = self.skip_comments(self.parse_const(expression.args["expression"], {}, arguments)["value"])
+                filename = self.skip_comments(self.parse_command(expression, arguments))
                 if filename[:1] in ('`', '"', "'") and filename[0] in filename[1:]:
                     filename = filename[1:filename.index(filename[0], 1)]
                 if filename in self.mapping:
@@ -243,9 +253,16 @@ class Compiler(object):
         elif isinstance(expression, sqlglot.expressions.Set) and expression.args.get("expressions") and len(expression.args.get("expressions")) == 1:
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
-                return SetCommandTasker(self.parse_set(self.generate_sql(set_item_expression)))
+                return SetCommandTasker(self.parse_set(self.to_sql(set_item_expression)))
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
+    def parse_command(self, expression, arguments):
+        if isinstance(expression.args["expression"], str):
+            return expression.args["expression"]
+        if isinstance(expression.args["expression"], sqlglot_expressions.Literal):
+            return expression.args["expression"].args["this"]
+        return self.parse_const(expression.args["expression"], {}, arguments)["value"]
+
     def parse_set(self, sql):
         key, sql_parser = "", SqlParser(sql)
         while sql_parser.index < sql_parser.len and sql[sql_parser.index] != "=":
-- 
2.43.0


From 219568be883410d5e3e17591c26d94adefe2fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:32 +0000
Subject: [PATCH 128/128] fix: rows pushed into a table or got from it are the
 rows of that table only, and may come in any iterable

---
 syncanysql/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 89f4c0d..45cd639 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -6,6 +6,7 @@ from .version import version, version_info
 
 import threading
 from collections import deque
+from collections.abc import Mapping
 from syncany.loaders import Loader, register_loader
 from syncany.outputers import Outputer, register_outputer
 from syncany.valuers import Valuer, register_valuer
@@ -176,7 +177,7 @@ class ScriptEngine(object):
             return []
         database = self.get_database("--")
         query = database.query("--." + name, ["id"])
-        return query.commit()
+        return [dict(data) for data in query.commit()]
 
     def pop_memory_datas(self, name):
         if self.manager is None:
@@ -190,7 +191,7 @@ class ScriptEngine(object):
 
     def push_memory_datas(self, name, datas):
         database = self.get_database("--")
-        insert = database.insert("--." + name, ["id"], datas=datas if isinstance(datas, list) else [datas])
+        insert = database.insert("--." + name, ["id"], datas=[dict(data) for data in ([datas] if isinstance(datas, Mapping) else datas)])
         insert.commit()
 
     def terminal(self):
-- 
2.43.0

