From 090559297d782754aefea437592499c13555e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 01/85] fix: subgraph_sum double-counts shared nodes in place
 and fails on three-level indexes

---
 hatchet/graphframe.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..2d5bf37 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -713,7 +713,7 @@ class GraphFrame:
                             df_index2 = ([node] + node.children, rank_thread)
 
                         for col in out_columns:
-                            self.dataframe.loc[df_index1, col] = function(
+                            self.dataframe.at[df_index1, col] = function(
                                 self.dataframe.loc[df_index2, col]
                             )
                 else:
@@ -774,15 +774,15 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
-                    for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
-                            function(self.dataframe.loc[df_index2, col])
-                        ]
+                    for col, out in zip(columns, out_columns):
+                        self.dataframe.at[df_index1, out] = function(
+                            source.loc[df_index2, col]
+                        )
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(source.loc[(subgraph_nodes), columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From 6e82a38fb595f0f47e80b6abba1d6adf230493dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 02/85] fix: inclusive sums lose values below a node that lacks
 a row for some rank

---
 hatchet/graphframe.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 2d5bf37..9bf05a5 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -743,11 +743,21 @@ class GraphFrame:
             function (callable): associative operator used to sum
                 elements, sum of an all-NA series is NaN (default: sum(min_count=1))
         """
-        if self.graph.is_tree():
+        # subtree_sum passes sums on from child to parent row, so it also needs
+        # every node to have a row for each combination of the other indexes
+        # (e.g., rank); filter() can produce graphframes that lack some.
+        index = self.dataframe.index
+        all_rows = not isinstance(index, pd.MultiIndex) or len(index) == len(
+            self.graph
+        ) * len(index.droplevel("node").unique())
+
+        if all_rows and self.graph.is_tree():
             self.subtree_sum(columns, out_columns, function)
             return
 
         out_columns = self._init_sum_columns(columns, out_columns)
+        # always sum the input values, even if the output overwrites them
+        source = self.dataframe[columns].copy()
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
-- 
2.43.0


From 83de9a0c1341cfb1c78bc9d922ca35607ecad496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 03/85] fix: query wildcards miss longer and consecutive
 matches

---
 hatchet/query/engine.py | 52 +++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..f60e202 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -100,34 +100,30 @@ class QueryEngine:
         # Cache the node if it's not already cached
         if node._hatchet_nid not in self.search_cache:
             self._cache_node(node, query, dframe)
-        # If the node matches with the next non-wildcard query node,
-        # end the recursion and return the node.
-        if wcard_idx + 1 in self.search_cache[node._hatchet_nid]:
-            return [[]]
+        cached = self.search_cache[node._hatchet_nid]
+        rest = [wcard for wcard, _ in query.query_pattern[wcard_idx + 1 :]]
+        matches = []
+        # The "*" wildcard may end before the current node if the next query
+        # node can start here. Another "*" can start (and end) anywhere.
+        if len(rest) > 0 and (rest[0] == "*" or wcard_idx + 1 in cached):
+            matches.append([])
         # If the node matches the "*" wildcard query, recursively
         # apply this function to the current node's children. Then,
         # collect their returned matches, and prepend the current node.
-        elif wcard_idx in self.search_cache[node._hatchet_nid]:
-            matches = []
-            if len(node.children) == 0:
-                if wcard_idx == len(query) - 1:
-                    return [[node]]
-                return None
+        if wcard_idx in cached:
+            sub_matches = []
+            if len(node.children) == 0 and all(wcard == "*" for wcard in rest):
+                sub_matches.append([])
             for child in sorted(node.children, key=traversal_order):
                 sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
                 if sub_match is not None:
-                    matches.extend(sub_match)
-            if len(matches) == 0:
-                return None
-            tmp = set(tuple(m) for m in matches)
-            matches = [list(t) for t in tmp]
-            return [[node] + m for m in matches]
+                    sub_matches.extend(sub_match)
+            matches.extend([node] + list(m) for m in set(tuple(m) for m in sub_matches))
         # If the current node doesn't match the current "*" wildcard or
         # the next non-wildcard query node, return None.
-        else:
-            if wcard_idx == len(query) - 1:
-                return [[]]
-            return None
+        elif len(rest) == 0:
+            return [[]]
+        return matches if len(matches) > 0 else None
 
     def _match_1(self, query, dframe, node, idx):
         """Process a "." predicate in the query on a subgraph.
@@ -173,7 +169,7 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
@@ -242,15 +238,15 @@ class QueryEngine:
         # If the node matches the starting/root node of the query,
         # try to get all query matches in the subgraph rooted at
         # this node.
-        if query.query_pattern[0][0] == "*":
-            if 1 in self.search_cache[node._hatchet_nid]:
-                sub_match = self._match_pattern(query, dframe, node, 1)
+        # A leading "*" can match 0 nodes, so the query can also start at
+        # the query node after it.
+        for idx, (wcard, _) in enumerate(query.query_pattern):
+            if idx in self.search_cache[node._hatchet_nid]:
+                sub_match = self._match_pattern(query, dframe, node, idx)
                 if sub_match is not None:
                     matches.extend(sub_match)
-        if 0 in self.search_cache[node._hatchet_nid]:
-            sub_match = self._match_pattern(query, dframe, node, 0)
-            if sub_match is not None:
-                matches.extend(sub_match)
+            if wcard != "*":
+                break
         # Note that the node is now visited.
         visited.add(node._hatchet_nid)
         # Continue the Depth First Search.
-- 
2.43.0


From 2d15dc4cbf9d57a0605c2e2df427d4cc80f18257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 04/85] fix: ~ does not negate new-style queries

---
 hatchet/query/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/query/__init__.py b/hatchet/query/__init__.py
index 77e5bfd..4a91951 100644
--- a/hatchet/query/__init__.py
+++ b/hatchet/query/__init__.py
@@ -60,12 +60,14 @@ Query.__and__ = combine_via_conjunction
 Query.__or__ = combine_via_disjunction
 Query.__xor__ = combine_via_exclusive_disjunction
 Query.__not__ = negate_query
+Query.__invert__ = negate_query
 
 
 CompoundQuery.__and__ = combine_via_conjunction
 CompoundQuery.__or__ = combine_via_disjunction
 CompoundQuery.__xor__ = combine_via_exclusive_disjunction
 CompoundQuery.__not__ = negate_query
+CompoundQuery.__invert__ = negate_query
 
 
 def is_hatchet_query(query_obj):
-- 
2.43.0


From 8ada1aefb8c20d524a638432134b601d1e86e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 05/85] fix: braced string queries drop the multi-index mode
 and a single braced query is lost

---
 hatchet/query/string_dialect.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..6d2c039 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1498,17 +1498,15 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # Get the MATCH clause that will be shared across the subqueries
         match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
         match_comp = match_comp_obj.group("match_field")
+        # Set the initial query as a CypherQuery where the MATCH clause is the
+        # shared match clause and the WHERE clause is the first curly
+        # brace-delimited region
+        query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[0])
+        if sys.version_info[0] == 2:
+            query1 = query1.decode("utf-8")
+        full_query = StringQuery(query1, multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as a CypherQuery where
-            # the MATCH clause is the shared match clause and the WHERE clause is the
-            # first curly brace-delimited region
-            if i == 0:
-                query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[i])
-                if sys.version_info[0] == 2:
-                    query1 = query1.decode("utf-8")
-                full_query = StringQuery(query1, multi_index_mode)
             # Get the next query as a CypherQuery where
             # the MATCH clause is the shared match clause and the WHERE clause is the
             # next curly brace-delimited region
@@ -1534,15 +1532,13 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
                 "Incompatible number of curly brace elements and compound operators"
             )
         # Iterate over the compound operators
-        full_query = None
+        # The initial query is the result of recursively calling this function
+        # on the first curly brace-delimited region
+        full_query = parse_string_dialect(query_list[0], multi_index_mode)
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as the result
-            # of recursively calling this function on the first curly brace-delimited region
-            if i == 0:
-                full_query = parse_string_dialect(query_list[i])
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
+            next_query = parse_string_dialect(query_list[i + 1], multi_index_mode)
             # Add the next query to the full query using the compound operator
             # currently being considered
             if op == "AND":
-- 
2.43.0


From d647ab15a365d1cfb732d8f9752a00dc8db062e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 06/85] fix: object-dialect comparisons ignore the sign of
 infinity and fail on NaN or infinite cells of multi-index tables

---
 hatchet/query/object_dialect.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..e546c3f 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -4,7 +4,7 @@
 # SPDX-License-Identifier: MIT
 
 from numbers import Real
-import numpy as np
+import numpy as np  # noqa: F401
 import pandas as pd
 from pandas.api.types import (
     is_numeric_dtype,
@@ -27,6 +27,16 @@ def _process_multi_index_mode(apply_result, multi_index_mode):
     )
 
 
+def _compare_metric(value, comparison):
+    """Apply a comparison string (e.g., "> 5") to a single metric value."""
+    # NaN only matches an explicit test for NaN
+    if comparison.replace(" ", "") == "==np.nan":
+        return pd.isnull(value)
+    if comparison.replace(" ", "") == "!=np.nan":
+        return not pd.isnull(value)
+    return eval("value {}".format(comparison))
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -74,24 +84,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    # compare nan metric value to numeric query
-                    # (e.g. np.nan > 5)
-                    if pd.isnull(df_row[key]):
-                        nan_str = "np.nan"
-                        # compare nan metric value to nan query
-                        # (e.g., np.nan == np.nan)
-                        if nan_str in single_value:
-                            return eval("pd.isnull({}) == True".format(nan_str))
-                        return eval("{} {}".format(nan_str, single_value))
-                    elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
-                        return eval("{} {}".format(inf_str, single_value))
-                    else:
-                        return eval("{} {}".format(df_row[key], single_value))
+                    return _compare_metric(df_row[key], single_value)
 
                 if isinstance(single_value, Real):
                     return df_row[key] == single_value
@@ -168,7 +161,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     compops
                 ):
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: _compare_metric(x, single_value)
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-- 
2.43.0


From 255d2d0e66d5a026d9e18839e582c4af6676c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 07/85] fix: object-dialect equality ignores multi-index mode
 'all' and depth -1 on multi-index tables

---
 hatchet/query/object_dialect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e546c3f..2c3b918 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -127,6 +127,9 @@ def _process_predicate(attr_filter, multi_index_mode):
                 ):
                     return eval("{} {}".format(node._depth, single_value))
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
@@ -165,7 +168,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From 035e797ab8538df916ac4b5b0b71fca9ccd290b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 08/85] fix: object-dialect regexes with alternatives match
 prefixes of the attribute

---
 hatchet/query/object_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 2c3b918..abf0066 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -79,7 +79,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     raise InvalidQueryFilter(
                         "Value for attribute {} must be a string.".format(key)
                     )
-                return re.match(single_value + r"\Z", df_row[key]) is not None
+                return re.fullmatch(single_value, df_row[key]) is not None
             if isinstance(df_row[key], Real):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
@@ -156,7 +156,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                         "Value for attribute {} must be a string.".format(key)
                     )
                 apply_ret = df_row[key].apply(
-                    lambda x: re.match(single_value + r"\Z", x) is not None
+                    lambda x: re.fullmatch(single_value, x) is not None
                 )
                 return _process_multi_index_mode(apply_ret, multi_index_mode)
             if is_numeric_dtype(df_row[key]):
-- 
2.43.0


From 790ba855b2d769988fd564f3a5efd05033a60c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 09/85] fix: string-dialect conditions after one without a type
 check raise SyntaxError

---
 hatchet/query/string_dialect.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 6d2c039..f7a4c3c 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -149,20 +149,17 @@ class StringQuery(Query):
             n = self.wcards[i]
             if n[1] != "":
                 bool_expr = ""
-                type_check = ""
-                for j, cond in enumerate(self.filters[i]):
+                type_checks = []
+                for cond in self.filters[i]:
                     if cond[0] is not None:
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
-                            type_check += " {}".format(cond[2])
-                        else:
-                            type_check += " and {}".format(cond[2])
+                        type_checks.append(cond[2])
                 bool_expr = "lambda df_row: {}".format(bool_expr)
                 bool_expr = (
                     'lambda df_row: filter_check_types("{}", df_row, {})'.format(
-                        type_check, bool_expr
+                        " and ".join(type_checks), bool_expr
                     )
                 )
                 self.lambda_filters[i] = bool_expr
-- 
2.43.0


From b57ff745842d142f8a12df2a3de1228c6e685540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 10/85] fix: IS NOT NAN/INF swap 'any' and 'all' on multi-index
 tables

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index f7a4c3c..bd0db17 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1294,7 +1294,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                '(~pd.isna(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1388,7 +1388,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From e0ee300813d02d0a9f7cadde3f3d13480ae6e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 11/85] fix: string-dialect values with quotes or backslashes
 are altered or rejected

---
 hatchet/query/string_dialect.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index bd0db17..520fdba 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -158,7 +158,7 @@ class StringQuery(Query):
                         type_checks.append(cond[2])
                 bool_expr = "lambda df_row: {}".format(bool_expr)
                 bool_expr = (
-                    'lambda df_row: filter_check_types("{}", df_row, {})'.format(
+                    'lambda df_row: filter_check_types({!r}, df_row, {})'.format(
                         " and ".join(type_checks), bool_expr
                     )
                 )
@@ -462,7 +462,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            'df_row["{}"] == "{}"'.format(obj.prop, obj.val),
+            'df_row["{}"] == {!r}'.format(obj.prop, obj.val),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -471,7 +471,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: elem == "{}")'.format(
+                'df_row["{}"].apply(lambda elem: elem == {!r})'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -483,7 +483,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            'df_row["{}"].startswith("{}")'.format(obj.prop, obj.val),
+            'df_row["{}"].startswith({!r})'.format(obj.prop, obj.val),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -492,7 +492,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: elem.startswith("{}"))'.format(
+                'df_row["{}"].apply(lambda elem: elem.startswith({!r}))'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -504,7 +504,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            'df_row["{}"].endswith("{}")'.format(obj.prop, obj.val),
+            'df_row["{}"].endswith({!r})'.format(obj.prop, obj.val),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -513,7 +513,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: elem.endswith("{}"))'.format(
+                'df_row["{}"].apply(lambda elem: elem.endswith({!r}))'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -525,7 +525,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            '"{}" in df_row["{}"]'.format(obj.val, obj.prop),
+            '{!r} in df_row["{}"]'.format(obj.val, obj.prop),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -534,7 +534,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: "{}" in elem)'.format(
+                'df_row["{}"].apply(lambda elem: {!r} in elem)'.format(
                     obj.prop, obj.val
                 )
             ),
@@ -546,7 +546,7 @@ class StringQuery(Query):
         return [
             None,
             obj.name,
-            're.match("{}", df_row["{}"]) is not None'.format(obj.val, obj.prop),
+            're.match({!r}, df_row["{}"]) is not None'.format(obj.val, obj.prop),
             "isinstance(df_row['{}'], str)".format(obj.prop),
         ]
 
@@ -555,7 +555,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'df_row["{}"].apply(lambda elem: re.match("{}", elem) is not None)'.format(
+                'df_row["{}"].apply(lambda elem: re.match({!r}, elem) is not None)'.format(
                     obj.prop, obj.val
                 )
             ),
-- 
2.43.0


From f908b8ab9c710333251e2bee36451f8d37b034e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 12/85] fix: string queries without WHERE, or with
 unconditioned named nodes, cannot be built

---
 hatchet/query/string_dialect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 520fdba..54d6e4e 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -147,7 +147,7 @@ class StringQuery(Query):
         """
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
-            if n[1] != "":
+            if n[1] != "" and len(self.filters[i]) > 0:
                 bool_expr = ""
                 type_checks = []
                 for cond in self.filters[i]:
@@ -181,6 +181,8 @@ class StringQuery(Query):
         """Top level function for parsing the WHERE statement of
         a String-based query.
         """
+        if cond_expr is None:
+            return
         conditions = cond_expr.conditions
         for cond in conditions:
             converted_condition = None
-- 
2.43.0


From 5ab2a28b427257e34b71b3ad87005ea9bd8f5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 13/85] fix: parallel filter returns copies of the nodes, in
 the order the workers finish

---
 hatchet/graphframe.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 9bf05a5..32858a6 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -42,10 +42,12 @@ except ImportError:
 
 def parallel_apply(filter_function, dataframe, queue):
     """A function called in parallel, which does a pandas apply on part of a
-    dataframe and returns the results via multiprocessing queue function."""
+    dataframe and returns the index of the rows to keep via multiprocessing
+    queue function. (The rows themselves would arrive as copies, whose nodes
+    are no longer the nodes of the graph.)"""
     filtered_rows = dataframe.apply(filter_function, axis=1)
     filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df)
+    queue.put(filtered_df.index.tolist())
 
 
 class GraphFrame:
@@ -472,7 +474,7 @@ class GraphFrame:
                 # perform filter in parallel (default)
                 queue = mp.Queue()
                 processes = []
-                returned_frames = []
+                returned_rows = []
                 subframes = np.array_split(dataframe_copy, num_procs)
 
                 # Manually create a number of processes equal to the number of
@@ -485,18 +487,15 @@ class GraphFrame:
                     process.start()
                     processes.append(process)
 
-                # Stores filtered subframes in a list: 'returned_frames', for
-                # pandas concatenation. This intermediary list is used because
-                # pandas concat is faster when called only once on a list of
-                # dataframes, than when called multiple times appending onto a
-                # frame of increasing size.
+                # Collect the rows to keep. The processes may finish in any
+                # order, so sort the rows to keep them in their original order.
                 for pid in range(num_procs):
-                    returned_frames.append(queue.get())
+                    returned_rows.extend(queue.get())
 
                 for proc in processes:
                     proc.join()
 
-                filtered_df = pd.concat(returned_frames)
+                filtered_df = dataframe_copy.loc[sorted(returned_rows)]
 
             else:
                 # perform filter sequentiually if num_procs = 1
-- 
2.43.0


From 3d0f95f39c34a6d4faef350e00c0c616b55679af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 14/85] fix: generate_exclusive_columns(str) also generates
 metrics whose names are substrings

---
 hatchet/graphframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 32858a6..bc380f1 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -814,6 +814,8 @@ class GraphFrame:
         # TODO Change how exclusive-inclusive pairs are determined when inc_metrics and exc_metrics are changed
         # Iterate over inclusive metrics and collect tuples of (new exclusive metrics name, inclusive metric name)
         generation_pairs = []
+        if isinstance(inc_metrics, str):
+            inc_metrics = [inc_metrics]
         for inc in self.inc_metrics:
             if inc_metrics and inc not in inc_metrics:
                 continue
-- 
2.43.0


From b425e369d8f8257e9d5c9d6850f697ba9ca8fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 15/85] fix: generate_exclusive_columns raises KeyError when a
 child lacks rows of some ranks

---
 hatchet/graphframe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index bc380f1..c7fe627 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -860,7 +860,12 @@ class GraphFrame:
                         for child in node.children:
                             # TODO: See note about full_idx above
                             child_idx = tuple([child]) + tuple(non_node_idx)
-                            inc_sum += np.nan_to_num(self.dataframe.loc[child_idx, inc])
+                            # The child may lack a row for this combination of the
+                            # other indexes (e.g., after filtering rows of some ranks)
+                            if child_idx in self.dataframe.index:
+                                inc_sum += np.nan_to_num(
+                                    self.dataframe.loc[child_idx, inc]
+                                )
                         # Subtract the current node's inclusive metric from the previously calculated sum to
                         # get the exclusive metric value for the node
                         new_data[full_idx] = self.dataframe.loc[full_idx, inc] - inc_sum
-- 
2.43.0


From 9b3ec1aa6dda59dfea787f2662fd8f6ebbec761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 16/85] fix: union of DAGs loses call paths and duplicates
 nodes and links

A node with several parents was matched with its counterpart only the first
time it was reached; counterparts that had been mapped before were left
unmerged (dropping the children of one of them) or connected twice.
---
 hatchet/graph.py | 181 +++++++++++++++++------------------------------
 1 file changed, 65 insertions(+), 116 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..6d6da2b 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -209,133 +209,82 @@ class Graph:
         if old_to_new is None:
             old_to_new = {}  # mapping from old nodes to new nodes
 
-        def _merge(self_children, other_children, parent):
-            """Recursively merge children of self and other.
-
-            Arguments:
-                self_children (list or tuple): List of children nodes from self
-                other_children (list or tuple): List of children nodes from other
-                parent (Node): Parent node for self and other child(ren)
+        # id of each node -> list of all nodes it is merged with (and itself)
+        groups = {}
+
+        def group(node):
+            return groups.setdefault(id(node), [node])
+
+        def merged(nodes):
+            """List one node per group, sorted by frame."""
+            firsts = {}
+            for node in nodes:
+                firsts.setdefault(id(group(node)), node)
+            return sorted(firsts.values(), key=lambda n: n.frame)
+
+        def children(nodes):
+            """List one node per group of children of some nodes."""
+            return merged([child for node in nodes for child in node.children])
+
+        def match(self_nodes, other_nodes):
+            """Step through both (sorted) lists and merge nodes with equal frames."""
+            self_nodes, other_nodes = iter(self_nodes), iter(other_nodes)
+            self_node = next(self_nodes, None)
+            other_node = next(other_nodes, None)
+
+            while self_node and other_node:
+                if self_node.frame < other_node.frame:
+                    # self_node is unique
+                    self_node = next(self_nodes, None)
+                elif self_node.frame > other_node.frame:
+                    # other_node is unique
+                    other_node = next(other_nodes, None)
+                else:
+                    # self_node and other_node are equal
+                    merge(self_node, other_node)
+                    self_node = next(self_nodes, None)
+                    other_node = next(other_nodes, None)
+
+        def merge(self_node, other_node):
+            """Merge two nodes and, recursively, their equal children. Nodes with
+            several parents may have been merged with other nodes before."""
+            self_group, other_group = group(self_node), group(other_node)
+            if self_group is other_group:
+                return
+            self_children, other_children = children(self_group), children(other_group)
+            self_group.extend(other_group)
+            for node in other_group:
+                groups[id(node)] = self_group
+            match(self_children, other_children)
+
+        def make_nodes(nodes, parent):
+            """Make a new node for each group of nodes and connect it to parent.
 
             Modifies old_to_new (dict): Updated dict mapping old nodes from self and other to new
                 unioned nodes
 
             Return:
-                (list): list of merged children
+                (list): list of new nodes
             """
-
-            def make_node(*nodes):
-                """Make a new node to represent the union of other nodes."""
-                new_node = nodes[0].copy()
-                for node in nodes:
-                    old_to_new[id(node)] = new_node
-                return new_node
-
-            new_children = []
-
-            def connect(parent, new_node):
+            new_nodes = []
+            for node in merged(nodes):
+                new_node = old_to_new.get(id(node))
+                if not new_node:
+                    # make a new node to represent the union of other nodes.
+                    new_node = node.copy()
+                    for old_node in group(node):
+                        old_to_new[id(old_node)] = new_node
+                    make_nodes(children(group(node)), new_node)
                 if parent:
                     parent.add_child(new_node)
                     new_node.add_parent(parent)
-                new_children.append(new_node)
-
-            # step through both lists and merge nodes
-            self_children, other_children = iter(self_children), iter(other_children)
-            self_child = next(self_children, None)
-            other_child = next(other_children, None)
-
-            while self_child and other_child:
-                if self_child.frame < other_child.frame:
-                    # self_child is unique
-                    new_node = old_to_new.get(id(self_child))
-                    if not new_node:
-                        new_node = make_node(self_child)
-                        _merge(
-                            sorted(self_child.children, key=lambda n: n.frame),
-                            (),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-
-                elif self_child.frame > other_child.frame:
-                    # other_child is unique
-                    new_node = old_to_new.get(id(other_child))
-                    if not new_node:
-                        new_node = make_node(other_child)
-                        _merge(
-                            (),
-                            sorted(other_child.children, key=lambda n: n.frame),
-                            new_node,
-                        )
-                    connect(parent, new_node)
-                    other_child = next(other_children, None)
-
-                else:
-                    # self_child and other_child are equal
-                    self_mapped = old_to_new.get(id(self_child))
-                    other_mapped = old_to_new.get(id(other_child))
-                    if not self_mapped and not other_mapped:
-                        new_node = make_node(self_child, other_child)
-                    else:
-                        new_node = self_mapped or other_mapped
-
-                    # map whichever node was not mapped yet
-                    if not self_mapped:
-                        old_to_new[id(self_child)] = new_node
-                        self_side = self_child.children
-                    else:
-                        self_side = []
-
-                    if not other_mapped:
-                        old_to_new[id(other_child)] = new_node
-                        other_side = other_child.children
-                    else:
-                        other_side = []
-
-                    _merge(
-                        sorted(self_side, key=lambda n: n.frame),
-                        sorted(other_side, key=lambda n: n.frame),
-                        new_node,
-                    )
-
-                    connect(parent, new_node)
-                    self_child = next(self_children, None)
-                    other_child = next(other_children, None)
-
-            # finish off whichever list of children is longer
-            while self_child:
-                new_node = old_to_new.get(id(self_child))
-                if not new_node:
-                    new_node = make_node(self_child)
-                    _merge(
-                        sorted(self_child.children, key=lambda n: n.frame),
-                        (),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                self_child = next(self_children, None)
-
-            while other_child:
-                new_node = old_to_new.get(id(other_child))
-                if not new_node:
-                    new_node = make_node(other_child)
-                    _merge(
-                        (),
-                        sorted(other_child.children, key=lambda n: n.frame),
-                        new_node,
-                    )
-                connect(parent, new_node)
-                other_child = next(other_children, None)
-
-            return new_children
+                new_nodes.append(new_node)
+            return new_nodes
 
         # First establish which nodes correspond to each other
-        new_roots = _merge(
-            sorted(self.roots, key=lambda n: n.frame),
-            sorted(other.roots, key=lambda n: n.frame),
-            None,
-        )
+        match(merged(self.roots), merged(other.roots))
+
+        new_roots = make_nodes(list(self.roots) + list(other.roots), None)
 
         graph = Graph(new_roots)
         graph.enumerate_traverse()
-- 
2.43.0


From 28ad9efea4bfd914f8eab17da24cd72f2a0cb382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 17/85] fix: copying a graph with a node order loses the order

---
 hatchet/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 6d6da2b..df28370 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -178,6 +178,8 @@ class Graph:
         # first pass creates new nodes
         for node in self.traverse():
             old_to_new[node] = node.copy()
+            # a specified "node order" is kept in _hatchet_nid
+            old_to_new[node]._hatchet_nid = node._hatchet_nid
 
         # second pass hooks up parents and children
         for old, new in old_to_new.items():
-- 
2.43.0


From 87fd059a92430066d7da11d63cf456f7fc48fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 18/85] fix: graphs that share nodes differently compare equal

---
 hatchet/graph.py |  4 ++--
 hatchet/node.py  | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index df28370..75be926 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -338,8 +338,8 @@ class Graph:
         """Check if two graphs have the same structure by comparing frame at each
         node.
         """
-        vs = set()
-        vo = set()
+        vs = {}
+        vo = {}
 
         # if both graphs are pointing to the same object, then graphs are equal
         if self is other:
diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..a9d5cc9 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -75,13 +75,14 @@ class Node:
         """Check if DAG rooted at self has the same structure as that rooted at
         other.
         """
+        # visited nodes of self and other, with the node each was compared to
         if vs is None:
-            vs = set()
+            vs = {}
         if vo is None:
-            vo = set()
+            vo = {}
 
-        vs.add(self._hatchet_nid)
-        vo.add(other._hatchet_nid)
+        vs[self._hatchet_nid] = other._hatchet_nid
+        vo[other._hatchet_nid] = self._hatchet_nid
 
         # if number of children do not match, then nodes are not equal
         if len(self.children) != len(other.children):
@@ -105,6 +106,9 @@ class Node:
 
             # skip visited nodes
             if visited_s or visited_o:
+                # shared nodes have to be shared alike
+                if vs[self_child._hatchet_nid] != other_child._hatchet_nid:
+                    return False
                 continue
 
             # recursive check for node equality
-- 
2.43.0


From 1a8a620455b784d72e6943143b3af9883e562223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 19/85] fix: frames made from one dictionary share and change
 it

---
 hatchet/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/frame.py b/hatchet/frame.py
index b090a96..02acf8e 100644
--- a/hatchet/frame.py
+++ b/hatchet/frame.py
@@ -33,7 +33,7 @@ class Frame:
 
         """
         # attributes dictionary
-        self.attrs = attrs if attrs else {}
+        self.attrs = dict(attrs) if attrs else {}
 
         # add keyword arguments, if any.
         if kwargs:
-- 
2.43.0


From cd0d7361a4525bf51be65bbc7ed98e822fc70917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 20/85] fix: normalizing a DAG loses nodes merged through
 several parents

---
 hatchet/graph.py | 70 +++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 75be926..057f64c 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -89,49 +89,35 @@ class Graph:
             (dict): dictionary from nodes to their merge targets
 
         """
+        # id of each node -> list of all nodes it is merged with (and itself)
+        groups = {}
+
+        def group(node):
+            return groups.setdefault(id(node), [node])
+
+        # lists of nodes that are siblings, maybe after merging their parents
+        siblings = [self.roots] + [node.children for node in self.traverse()]
+        while siblings:
+            index = index_by("frame", siblings.pop(0))
+            for nodes in index.values():
+                merged = group(nodes[0])
+                for node in nodes[1:]:
+                    other = group(node)
+                    if other is merged:
+                        continue
+                    merged.extend(other)
+                    for n in other:
+                        groups[id(n)] = merged
+                    # ensure that equivalent children of merged nodes
+                    # also get merged.
+                    siblings.append([c for n in merged for c in n.children])
+
         merges = {}  # old_node -> merged_node
-        inverted_merges = defaultdict(
-            lambda: []
-        )  # merged_node -> list of corresponding old_nodes
-        processed = []
-
-        def _find_child_merges(node_list):
-            index = index_by("frame", node_list)
-            for frame, children in index.items():
-                if len(children) > 1:
-                    min_id = min(children, key=id)
-                    for child in children:
-                        prev_min = merges.get(child, min_id)
-                        # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=id)
-                        # Save the new merged_node to the merges dict
-                        # so that the merge can happen later.
-                        merges[child] = curr_min
-                        # Update inverted_merges to be able to set node_list
-                        # to the right value.
-                        inverted_merges[curr_min].append(child)
-
-        _find_child_merges(self.roots)
-        for node in self.traverse():
-            if node in processed:
-                continue
-            nodes = None
-            # If node is going to be merged with other nodes,
-            # collect the set of those nodes' children. This is
-            # done to ensure that equivalent children of merged nodes
-            # also get merged.
-            if node in merges:
-                new_node = merges[node]
-                nodes = []
-                for node_to_merge in inverted_merges[new_node]:
-                    nodes.extend(node_to_merge.children)
-                processed.extend(inverted_merges[new_node])
-            # If node is not going to be merged, simply get the list of
-            # node's children.
-            else:
-                nodes = node.children
-                processed.append(node)
-            _find_child_merges(nodes)
+        for nodes in groups.values():
+            if len(nodes) > 1:
+                merged_node = min(nodes, key=id)
+                for node in nodes:
+                    merges[node] = merged_node
 
         return merges
 
-- 
2.43.0


From cc8c8bef9ab3899b12afdbbc7ba7de15f17f93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 21/85] fix: arithmetic writes its results into the source
 graphframe, and fails on three index levels

---
 hatchet/graphframe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index c7fe627..2708060 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1261,7 +1261,14 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        result = op(other.dataframe[all_metrics])
+
+        # undefined results, e.g. of rows missing in other, leave self's values.
+        # the columns may be shared with the graphframe that self was copied from,
+        # so make new ones
+        self.dataframe = self.dataframe.assign(
+            **{m: self.dataframe[m].where(result[m].isna(), result[m]) for m in all_metrics}
+        )
 
         return self
 
-- 
2.43.0


From 4806fc3978b3c7c2226da6926d3ee4cc59e9e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 22/85] fix: arithmetic loses or does not mark rows missing for
 a rank or thread

---
 hatchet/graphframe.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 2708060..11aa531 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -957,7 +957,9 @@ class GraphFrame:
 
         # add missing rows to copy of self's dataframe in preparation for
         # operation
-        self._insert_missing_rows(other)
+        self._insert_missing_rows(
+            other, [name for name in self_index_names if name in other_index_names]
+        )
 
         self.dataframe.set_index(self_index_names, inplace=True, drop=True)
         other.dataframe.set_index(other_index_names, inplace=True, drop=True)
@@ -1272,9 +1274,11 @@ class GraphFrame:
 
         return self
 
-    def _insert_missing_rows(self, other):
+    def _insert_missing_rows(self, other, index_names):
         """Helper function to add rows that exist in other, but not in self.
 
+        Rows are identified by index_names, the (reset) index levels.
+
         This returns a graphframe with a modified dataframe. The new rows will
         contain zeros for numeric columns.
 
@@ -1287,33 +1291,36 @@ class GraphFrame:
             )
         )
 
+        # number the distinct rows (node, and rank or thread if any)
+        row_ids = {}
+
+        def get_row_ids(dataframe):
+            rows = zip(*(dataframe[name] for name in index_names))
+            return [row_ids.setdefault(row, len(row_ids)) for row in rows]
+
         # make two 2D nparrays arrays with two columns:
-        # 1) the hashed value of a node and 2) a numerical index
+        # 1) the number identifying a row and 2) a numerical index
         # Many operations are stacked here to reduce the need for storing
         # large intermediary datasets
         self_hsh_ndx = np.vstack(
             (
-                np.array(
-                    [x.__hash__() for x in self.dataframe["node"]], dtype=np.uint64
-                ),
+                np.array(get_row_ids(self.dataframe), dtype=np.uint64),
                 self.dataframe.index.values.astype(np.uint64),
             )
         ).T
         other_hsh_ndx = np.vstack(
             (
-                np.array(
-                    [x.__hash__() for x in other.dataframe["node"]], dtype=np.uint64
-                ),
+                np.array(get_row_ids(other.dataframe), dtype=np.uint64),
                 other.dataframe.index.values.astype(np.uint64),
             )
         ).T
 
-        # sort our 2D arrays by hashed node value so a binary search can be used
+        # sort our 2D arrays by row number so a binary search can be used
         # in the cython function fast_not_isin
         self_hsh_ndx_sorted = self_hsh_ndx[self_hsh_ndx[:, 0].argsort()]
         other_hsh_ndx_sorted = other_hsh_ndx[other_hsh_ndx[:, 0].argsort()]
 
-        # get nodes that exist in other, but not in self, set metric columns to 0 for
+        # get rows that exist in other, but not in self, set metric columns to 0 for
         # these rows
         other_not_in_self = other.dataframe[
             _gfm_cy.fast_not_isin(
@@ -1323,7 +1330,7 @@ class GraphFrame:
                 self_hsh_ndx_sorted.shape[0],
             )
         ]
-        # get nodes that exist in self, but not in other
+        # get rows that exist in self, but not in other
         self_not_in_other = self.dataframe[
             _gfm_cy.fast_not_isin(
                 self_hsh_ndx_sorted,
-- 
2.43.0


From 8c504f6b0a473189ffc2782192b0c163bea07530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 23/85] fix: arithmetic on a shared graph loses rows, and keeps
 marks of earlier operations

---
 hatchet/graphframe.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 11aa531..a015dc5 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -938,15 +938,26 @@ class GraphFrame:
 
         Update the graphs in the graphframe if they differ.
         """
-        if self.graph is other.graph:
-            return
-
-        node_map = {}
-        union_graph = self.graph.union(other.graph, node_map)
-
         self_index_names = self.dataframe.index.names
         other_index_names = other.dataframe.index.names
 
+        # membership recorded by earlier operations is no longer valid
+        for gf in (self, other):
+            if "_missing_node" in gf.dataframe.columns:
+                gf.dataframe = gf.dataframe.drop(columns="_missing_node")
+
+        node_map = {}
+        if self.graph is other.graph:
+            if self_index_names == other_index_names and self.dataframe.index.equals(
+                other.dataframe.index
+            ):
+                return
+            # the graphs agree, but the rows do not
+            union_graph = self.graph
+            node_map.update((id(node), node) for node in union_graph.traverse())
+        else:
+            union_graph = self.graph.union(other.graph, node_map)
+
         self.dataframe.reset_index(inplace=True)
         other.dataframe.reset_index(inplace=True)
 
-- 
2.43.0


From eb221b869ff7869ee4d4ec7d60f17cd38790876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:11 +0000
Subject: [PATCH 24/85] fix: graphframes made by filter, squash or grouping
 share metric lists and metadata with their source

---
 hatchet/graphframe.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index a015dc5..5daa417 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -62,7 +62,7 @@ class GraphFrame:
         exc_metrics=None,
         inc_metrics=None,
         default_metric="time",
-        metadata={},
+        metadata=None,
     ):
         """Create a new GraphFrame from a graph and a dataframe.
 
@@ -90,10 +90,11 @@ class GraphFrame:
 
         self.graph = graph
         self.dataframe = dataframe
-        self.exc_metrics = [] if exc_metrics is None else exc_metrics
-        self.inc_metrics = [] if inc_metrics is None else inc_metrics
+        # copies, as graphframes made from one another change them on their own
+        self.exc_metrics = [] if exc_metrics is None else list(exc_metrics)
+        self.inc_metrics = [] if inc_metrics is None else list(inc_metrics)
         self.default_metric = default_metric
-        self.metadata = metadata
+        self.metadata = {} if metadata is None else copy.copy(metadata)
         self.query_engine = QueryEngine()
 
     @staticmethod
@@ -532,11 +533,14 @@ class GraphFrame:
 
         filtered_df.set_index(index_names, inplace=True)
 
-        filtered_gf = GraphFrame(self.graph, filtered_df)
-        filtered_gf.exc_metrics = self.exc_metrics
-        filtered_gf.inc_metrics = self.inc_metrics
-        filtered_gf.default_metric = self.default_metric
-        filtered_gf.metadata = self.metadata
+        filtered_gf = GraphFrame(
+            self.graph,
+            filtered_df,
+            self.exc_metrics,
+            self.inc_metrics,
+            self.default_metric,
+            self.metadata,
+        )
 
         if squash:
             return filtered_gf.squash(update_inc_cols)
-- 
2.43.0


From e761fba9d52d2df2b5a688e44cb13b91c8c2f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 25/85] fix: groupby_aggregate fails for groups by name and for
 multi-index tables

---
 hatchet/graphframe.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 5daa417..effe812 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1485,7 +1485,7 @@ class GraphFrame:
             nid += 1
 
             # if many old nodes map to the same super node
-            for i in v:
+            for i in v.get_level_values("node"):
                 old_to_new[i] = super_node
 
         # reindex graph by traversing old graph
@@ -1494,15 +1494,14 @@ class GraphFrame:
             reindex(root, None, visited)
 
         # append super nodes to groupby-aggregate dataframe
-        df_index = list(agg_df.index.names)
-        agg_df.reset_index(inplace=True)
         df_nodes = pd.DataFrame.from_dict(data=node_dicts)
+        # the groups are the names of the super nodes
+        agg_df = agg_df.reset_index(drop=True).drop(
+            columns=df_nodes.columns, errors="ignore"
+        )
         tmp_df = pd.concat([agg_df, df_nodes], axis=1)
-        # add node to dataframe index if it doesn't exist
-        if "node" not in df_index:
-            df_index.append("node")
         # reset index
-        tmp_df.set_index(df_index, inplace=True)
+        tmp_df.set_index("node", inplace=True)
 
         # update _hatchet_nid in reindexed graph and groupby-aggregate dataframe
         graph = Graph(new_roots)
-- 
2.43.0


From 88d2a8e1deac9f95f02ce0d05dd543fa2d108f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 26/85] fix: graphframes read from JSON have no depths,
 duplicated shared nodes, and no numbers in all-NaN metrics

---
 hatchet/readers/json_reader.py | 38 ++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..978f345 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -5,6 +5,7 @@
 
 import json
 
+import numpy as np
 import pandas as pd
 
 import hatchet.graphframe
@@ -29,30 +30,41 @@ class JsonReader:
 
     def read(self):
         roots = []
+        nodes = {}
         for graph_spec in self.spec_dict["graph"]:
-            # turn frames into nodes
+            # turn frames into nodes; a node reachable from several roots is
+            # listed once per root
+            new_nodes = {}
             for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
+                if nid not in nodes:
+                    new_nodes[nid] = Node(Frame(value["data"]), hnid=int(nid))
+            nodes.update(new_nodes)
 
             # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
+            for nid, node in new_nodes.items():
+                for child in graph_spec[nid]["children"]:
                     child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
+                    node.add_child(nodes[child])
+                    nodes[child].add_parent(node)
 
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+        for graph_spec in self.spec_dict["graph"]:
+            nids = [nid for nid in graph_spec if len(nodes[nid].parents) == 0]
+            # a root may have parents below other roots; it is listed first
+            for nid in nids or list(graph_spec)[:1]:
+                roots.append(nodes[nid])
 
         grph = Graph(roots)
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
+        for metric in (
+            self.spec_dict["exclusive_metrics"] + self.spec_dict["inclusive_metrics"]
+        ):
+            # NaN is null in JSON
+            if dataframe[metric].isna().all():
+                dataframe[metric] = np.nan
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From e070e8682930aff1dd3dcd1c84d6a4f5852faec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:38 +0000
Subject: [PATCH 27/85] fix: literals with repeated nodes are read into wrong
 nodes, missing parents, and an id metric

---
 hatchet/readers/literal_reader.py | 71 ++++++++++---------------------
 1 file changed, 23 insertions(+), 48 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..9a5ac9c 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -66,85 +66,58 @@ class LiteralReader:
         """
         self.graph_dict = graph_dict
 
-    def parse_node_literal(
-        self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
-    ):
+    def parse_node_literal(self, nid_to_node, node_dicts, child_dict, hparent):
         """Create node_dict for one node and then call the function
         recursively on all children.
+
+        Return:
+            (Node): the node of child_dict
         """
 
         # pull out _hatchet_nid if it exists
         # so it will not be inserted into
         # dataframe like a normal metric
-        hnid = -1
-        if "_hatchet_nid" in child_dict["metrics"]:
-            hnid = child_dict["metrics"]["_hatchet_nid"]
+        metrics = dict(child_dict["metrics"])
+        hnid = metrics.pop("_hatchet_nid", -1)
 
-        frame = Frame(child_dict["frame"])
-        if hnid not in seen_nids:
-            hnode = Node(frame, hparent, hnid=hnid)
+        # nodes with several parents are repeated with the same _hatchet_nid
+        hnode = nid_to_node.get(hnid)
+        if hnode is None:
+            hnode = Node(Frame(child_dict["frame"]), None, hnid=hnid)
 
             # depending on the node type, the name may not be in the frame
             node_name = child_dict["frame"].get("name")
             if not node_name:
                 node_name = child_dict["name"]
 
-            node_dict = dict(
-                {"node": hnode, "name": node_name}, **child_dict["metrics"]
-            )
+            node_dict = dict({"node": hnode, "name": node_name}, **metrics)
 
             node_dicts.append(node_dict)
-            frame_to_node_dict[frame] = hnode
 
             if hnid != -1:
-                seen_nids.append(hnid)
-
-        else:
-            hnode = frame_to_node_dict.get(frame)
+                nid_to_node[hnid] = hnode
 
-        hparent.add_child(hnode)
+        if hparent is not None and not any(c is hnode for c in hparent.children):
+            hparent.add_child(hnode)
+            hnode.add_parent(hparent)
 
         if "children" in child_dict:
             for child in child_dict["children"]:
-                self.parse_node_literal(
-                    frame_to_node_dict, node_dicts, child, hnode, seen_nids
-                )
+                self.parse_node_literal(nid_to_node, node_dicts, child, hnode)
+
+        return hnode
 
     def read(self):
         list_roots = []
         node_dicts = []
-        frame_to_node_dict = {}
-        frame = None
-        seen_nids = []
-        hnid = -1
+        nid_to_node = {}
 
         # start with creating a node_dict for each root
         for i in range(len(self.graph_dict)):
-            if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
-                hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
-                seen_nids.append(hnid)
-            frame = Frame(self.graph_dict[i]["frame"])
-            graph_root = Node(frame, None, hnid=hnid)
-
-            # depending on the node type, the name may not be in the frame
-            node_name = self.graph_dict[i]["frame"].get("name")
-            if not node_name:
-                node_name = self.graph_dict[i]["name"]
-
-            node_dict = dict(
-                {"node": graph_root, "name": node_name}, **self.graph_dict[i]["metrics"]
+            graph_root = self.parse_node_literal(
+                nid_to_node, node_dicts, self.graph_dict[i], None
             )
-            node_dicts.append(node_dict)
-
             list_roots.append(graph_root)
-            frame_to_node_dict[frame] = graph_root
-
-            # call recursively on all children of root
-            if "children" in self.graph_dict[i]:
-                for child in self.graph_dict[i]["children"]:
-                    self.parse_node_literal(
-                        frame_to_node_dict, node_dicts, child, graph_root, seen_nids
-                    )
 
         graph = Graph(list_roots)
 
@@ -157,6 +130,8 @@ class LiteralReader:
         exc_metrics = []
         inc_metrics = []
         for key in self.graph_dict[i]["metrics"].keys():
+            if key == "_hatchet_nid":
+                continue
             if "(inc)" in key:
                 inc_metrics.append(key)
             else:
-- 
2.43.0


From 2605ca5a1c6b67df5311218610cd7b759ba95477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 28/85] fix: checkpoint tables lose metadata, row-less nodes
 and node order, and mislink nodes with several rows

---
 hatchet/readers/dataframe_reader.py | 36 ++++++++++++++++++++-------
 hatchet/writers/dataframe_writer.py | 38 ++++++++++++++++++++---------
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..c2117fc 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -42,18 +42,25 @@ def _get_parents_and_children(df):
             rel_dict[node] = {}
             rel_dict[node]["parents"] = df.iloc[i].loc["parents"]
             rel_dict[node]["children"] = df.iloc[i].loc["children"]
+    if "nodes_without_rows" in df.columns:
+        for node, parents, children in df.iloc[
+            0, df.columns.get_loc("nodes_without_rows")
+        ]:
+            rel_dict[node] = {"parents": parents, "children": children}
     return rel_dict
 
 
 def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
-    for i in range(len(df)):
-        node = _get_node_from_df_iloc(df, i)
-        if len(node.children) == 0:
-            node.children = [node_list[nid] for nid in rel_dict[node]["children"]]
-        if len(node.parents) == 0:
-            node.parents = [node_list[nid] for nid in rel_dict[node]["parents"]]
-    roots = [node for node in node_list if len(node.parents) == 0]
+    # nodes have one row per rank/thread, and their ids may have gaps
+    nodes = {node._hatchet_nid: node for node in sorted(rel_dict)}
+    for node, rel in rel_dict.items():
+        node.children = [nodes[nid] for nid in rel["children"]]
+        node.parents = [nodes[nid] for nid in rel["parents"]]
+    if "roots" in df.columns:
+        # roots may have parents below other roots
+        roots = [nodes[nid] for nid in df.iloc[0, df.columns.get_loc("roots")]]
+    else:
+        roots = [node for node in nodes.values() if len(node.parents) == 0]
     return Graph(roots)
 
 
@@ -71,7 +78,11 @@ class DataframeReader(ABC):
         df = self._read_dataframe_from_file(**kwargs)
         rel_dict = _get_parents_and_children(df)
         graph = _reconstruct_graph(df, rel_dict)
-        graph.enumerate_traverse()
+        if "node_ordering" in df.columns:
+            graph.node_ordering = bool(df.iloc[0, df.columns.get_loc("node_ordering")])
+        metadata = None
+        if "metadata" in df.columns:
+            metadata = df.iloc[0, df.columns.get_loc("metadata")]
         exc_metrics = df.iloc[0, df.columns.get_loc("exc_metrics")]
         inc_metrics = df.iloc[0, df.columns.get_loc("inc_metrics")]
         default_metric = df.iloc[0, df.columns.get_loc("default_metric")]
@@ -85,12 +96,19 @@ class DataframeReader(ABC):
             ],
             inplace=True,
         )
+        # tables written by earlier versions do not have these columns
+        df.drop(
+            columns=["nodes_without_rows", "roots", "node_ordering", "metadata"],
+            inplace=True,
+            errors="ignore",
+        )
         return hatchet.graphframe.GraphFrame(
             graph,
             df,
             exc_metrics=exc_metrics,
             inc_metrics=inc_metrics,
             default_metric=default_metric,
+            metadata=metadata,
         )
 
 
diff --git a/hatchet/writers/dataframe_writer.py b/hatchet/writers/dataframe_writer.py
index 3d71bff..d219ee1 100644
--- a/hatchet/writers/dataframe_writer.py
+++ b/hatchet/writers/dataframe_writer.py
@@ -32,18 +32,29 @@ def _get_node_from_df_iloc(df, ind):
     return node
 
 
-def _fill_children_and_parents(dump_df):
-    dump_df["children"] = [[] for _ in range(len(dump_df))]
-    dump_df["parents"] = [[] for _ in range(len(dump_df))]
-    for i in range(len(dump_df)):
-        node = _get_node_from_df_iloc(dump_df, i)
-        dump_df.iat[i, dump_df.columns.get_loc("children")] = [
-            c._hatchet_nid for c in node.children
-        ]
+def _fill_children_and_parents(dump_df, graph):
+    nodes = [_get_node_from_df_iloc(dump_df, i) for i in range(len(dump_df))]
+    # every row of a node lists its relatives
+    dump_df["children"] = [[c._hatchet_nid for c in node.children] for node in nodes]
+    dump_df["parents"] = [[p._hatchet_nid for p in node.parents] for node in nodes]
+    # nodes of a filtered, unsquashed graph need not have a row
+    in_table = set(nodes)
+    others = [node for node in graph.traverse() if node not in in_table]
+    dump_df["nodes_without_rows"] = None
+    dump_df.iat[0, dump_df.columns.get_loc("nodes_without_rows")] = [
+        (
+            node,
+            [p._hatchet_nid for p in node.parents],
+            [c._hatchet_nid for c in node.children],
+        )
+        for node in others
+    ]
+    dump_df["roots"] = None
+    dump_df.iat[0, dump_df.columns.get_loc("roots")] = [
+        root._hatchet_nid for root in graph.roots
+    ]
+    for node in nodes + others:
         node.children = []
-        dump_df.iat[i, dump_df.columns.get_loc("parents")] = [
-            p._hatchet_nid for p in node.parents
-        ]
         node.parents = []
     return dump_df
 
@@ -58,7 +69,10 @@ class DataframeWriter(ABC):
 
     def write(self, gf, **kwargs):
         gf_cpy = gf.deepcopy()
-        dump_df = _fill_children_and_parents(gf_cpy.dataframe)
+        dump_df = _fill_children_and_parents(gf_cpy.dataframe, gf_cpy.graph)
+        dump_df["node_ordering"] = gf_cpy.graph.node_ordering
+        dump_df["metadata"] = None
+        dump_df.iat[0, dump_df.columns.get_loc("metadata")] = gf_cpy.metadata
         dump_df["exc_metrics"] = None
         dump_df.iat[0, dump_df.columns.get_loc("exc_metrics")] = gf_cpy.exc_metrics
         dump_df["inc_metrics"] = None
-- 
2.43.0


From ae98e01ad4c19ac7e224dc63ec360d2ecd639dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 29/85] fix: folded stacks ignore the name column

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index effe812..d03deed 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1107,7 +1107,7 @@ class GraphFrame:
                     else:
                         df_index = callpath[i]
                     folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, "name"]) + "; "
+                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
                     )
 
                 if (
@@ -1122,7 +1122,7 @@ class GraphFrame:
                 else:
                     df_index = callpath[-1]
                 folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, "name"]) + " "
+                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
                 )
 
                 # set dataframe index based on if rank and thread are part of the index
-- 
2.43.0


From 4d20b4a8fb3ebf5b3ed1030243294b581f1bf7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 30/85] fix: DOT labels are not escaped

---
 hatchet/util/dot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/util/dot.py b/hatchet/util/dot.py
index 84cd62a..bd06970 100644
--- a/hatchet/util/dot.py
+++ b/hatchet/util/dot.py
@@ -52,7 +52,9 @@ def to_dot(hnode, dataframe, metric, name, rank, thread, threshold, visited):
             df_index = hnode
 
         node_time = dataframe.loc[df_index, metric]
-        node_name = dataframe.loc[df_index, name]
+        # backslashes and quotes are special in a quoted label
+        node_name = str(dataframe.loc[df_index, name])
+        node_name = node_name.replace("\\", "\\\\").replace('"', '\\"')
         node_id = hnode._hatchet_nid
 
         weight = (node_time - min_time) / (max_time - min_time)
-- 
2.43.0


From e03e8ebee49e375e825d98efdb0c9e46dbaa6802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 31/85] fix: tree ignores min_value and max_value of 0

---
 hatchet/external/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 613b523..de8903e 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -141,8 +141,12 @@ class ConsoleRenderer:
             metric_series.values[isfinite_mask], metric_series.index[isfinite_mask]
         )
 
-        self.max_metric = self.max_value if self.max_value else filtered_series.max()
-        self.min_metric = self.min_value if self.min_value else filtered_series.min()
+        self.max_metric = (
+            self.max_value if self.max_value is not None else filtered_series.max()
+        )
+        self.min_metric = (
+            self.min_value if self.min_value is not None else filtered_series.min()
+        )
 
         if self.unicode:
             self.lr_arrows = {"◀": "◀ ", "▶": "▶ "}
-- 
2.43.0


From 5f470e01f8df372159cebe6c15e5dddd54de3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:20 +0000
Subject: [PATCH 32/85] fix: tree with colormap_annotations fails when colors
 are off

---
 hatchet/external/console.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index de8903e..5fedaf0 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -297,7 +297,7 @@ class ConsoleRenderer:
                     }
                     pattern_metric = dataframe.loc[df_index, self.annotation_column]
                     annotation_content = self.temporal_symbols[pattern_metric]
-                    if self.colormap_annotations:
+                    if self.color and self.colormap_annotations:
                         self.colors_annotations_mapping = list(
                             dataframe[self.annotation_column].apply(str).unique()
                         )
@@ -315,7 +315,7 @@ class ConsoleRenderer:
                     else:  # no colormap passed in
                         metric_str += " {}".format(annotation_content)
                 # no pattern column
-                elif self.colormap_annotations:
+                elif self.color and self.colormap_annotations:
                     if isinstance(self.colormap_annotations, dict):
                         color_annotation = self.colors_annotations_mapping[
                             annotation_content
-- 
2.43.0


From 3fedd537e661bc12cabb6c5695afb79d89e91ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:17 +0000
Subject: [PATCH 33/85] fix: tree fails for pattern annotations colored by a
 list or dictionary

---
 hatchet/external/console.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 5fedaf0..eb823bf 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -228,11 +228,11 @@ class ConsoleRenderer:
                     if "none" not in k:
                         legend += "   " + self.temporal_symbols[k] + " " + k
                 legend += "\nTemporal Score  "
-                if self.colormap_annotations:
+                if self.colormap_annotations and not isinstance(
+                    self.colormap_annotations, dict
+                ):
                     legend_color_mapping = sorted(score_ranges)
-                    legend_colormap = ColorMaps().get_colors(
-                        self.colormap_annotations, False
-                    )
+                    legend_colormap = self.colors_annotations.colormap
                     for i in range(len(score_ranges) - 1):
                         color = legend_colormap[
                             legend_color_mapping.index(score_ranges[i + 1])
@@ -298,15 +298,24 @@ class ConsoleRenderer:
                     pattern_metric = dataframe.loc[df_index, self.annotation_column]
                     annotation_content = self.temporal_symbols[pattern_metric]
                     if self.color and self.colormap_annotations:
-                        self.colors_annotations_mapping = list(
-                            dataframe[self.annotation_column].apply(str).unique()
-                        )
                         coloring_content = pattern_metric
                         if coloring_content != "none":
-                            color_annotation = self.colors_annotations.colormap[
-                                self.colors_annotations_mapping.index(coloring_content)
-                                % len(self.colors_annotations.colormap)
-                            ]
+                            if isinstance(self.colormap_annotations, dict):
+                                color_annotation = self.colormap_annotations[
+                                    coloring_content
+                                ]
+                            else:
+                                self.colors_annotations_mapping = list(
+                                    dataframe[self.annotation_column]
+                                    .apply(str)
+                                    .unique()
+                                )
+                                color_annotation = self.colors_annotations.colormap[
+                                    self.colors_annotations_mapping.index(
+                                        coloring_content
+                                    )
+                                    % len(self.colors_annotations.colormap)
+                                ]
                             metric_str += " {}".format(color_annotation)
                             metric_str += "{}".format(annotation_content)
                             metric_str += "{}".format(self.colors_annotations.end)
-- 
2.43.0


From a1643e230b6028dbc5c0855fa59cf12bf41b310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:05 +0000
Subject: [PATCH 34/85] fix: exported dictionaries and literals share frames
 and metric lists with the graphframe

---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d03deed..8261fc8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1208,7 +1208,7 @@ class GraphFrame:
                 node_name = node_name[0]
 
             node_dict["name"] = node_name
-            node_dict["frame"] = hnode.frame.attrs
+            node_dict["frame"] = dict(hnode.frame.attrs)
             node_dict["metrics"] = metrics_to_dict(df_index)
             # node_dict["metrics"]["_hatchet_nid"] = int(self.dataframe["nid"][df_index])
             node_dict["metrics"]["_hatchet_nid"] = int(hnode._hatchet_nid)
@@ -1239,7 +1239,7 @@ class GraphFrame:
             formatted_graph_dict = {}
             for n in root.traverse():
                 formatted_graph_dict[n._hatchet_nid] = {
-                    "data": n.frame.attrs,
+                    "data": dict(n.frame.attrs),
                     "children": [c._hatchet_nid for c in n.children],
                 }
             graphs.append(formatted_graph_dict)
@@ -1251,8 +1251,8 @@ class GraphFrame:
         ef["node"] = ef["node"].apply(lambda n: n._hatchet_nid)
         hatchet_dict["dataframe"] = ef.replace({np.nan: None}).to_dict("records")
 
-        hatchet_dict["inclusive_metrics"] = self.inc_metrics
-        hatchet_dict["exclusive_metrics"] = self.exc_metrics
+        hatchet_dict["inclusive_metrics"] = list(self.inc_metrics)
+        hatchet_dict["exclusive_metrics"] = list(self.exc_metrics)
 
         return hatchet_dict
 
-- 
2.43.0


From be472119124f79e4e3220edc384430f2f601c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 35/85] fix: nodes read from Caliper JSON files do not know
 their parents

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..b738258 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                     parent_hnode = (self.idx_to_node[node["parent"]])["node"]
                     hnode = Node(
                         Frame({"type": self.node_type, "name": node_label}),
+                        parent_hnode,
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
-- 
2.43.0


From 89372a75126c635f524b6f956dfe8a2487802470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 36/85] fix: node order of Caliper JSON files is looked up by
 row position instead of by node

---
 hatchet/readers/caliper_reader.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b738258..4a9e189 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -137,7 +137,11 @@ class CaliperReader:
         # make list of metric columns
         self.metric_columns = []
         for idx, item in enumerate(self.json_cols_mdata):
-            if self.json_cols[idx] != "rank" and item["is_value"] is True:
+            # the "Node order" column is removed from the dataframe later
+            if (
+                self.json_cols[idx] not in ("rank", "Node order")
+                and item["is_value"] is True
+            ):
                 self.metric_columns.append(self.json_cols[idx])
 
     def create_graph(self):
@@ -146,6 +150,15 @@ class CaliperReader:
         global unknown_label_counter
         order = -1
 
+        # find the node order of each node in the data section
+        node_orders = {}
+        if "Node order" in self.json_cols:
+            self.node_ordering = True
+            nid_col = self.json_cols.index(self.nid_col_name)
+            order_col = self.json_cols.index("Node order")
+            for row in self.json_data:
+                node_orders.setdefault(row[nid_col], row[order_col])
+
         # find nodes in the nodes section that represent the path hierarchy
         for idx, node in enumerate(self.json_nodes):
             node_label = node["label"]
@@ -156,9 +169,8 @@ class CaliperReader:
 
             if node["column"] == self.path_col_name:
                 # If there is a node orderering, assign to the _hatchet_nid
-                if "Node order" in self.json_cols:
-                    self.node_ordering = True
-                    order = self.json_data[idx][0]
+                if self.node_ordering:
+                    order = node_orders.get(idx, -1)
                 if "parent" not in node:
                     # since this node does not have a parent, this is a root
                     graph_root = Node(
-- 
2.43.0


From cf2a531ef727cdce4317ece779aee8888ff4a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 37/85] fix: Caliper JSON files with records that lack an
 attribute raise TypeError

---
 hatchet/readers/caliper_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 4a9e189..bb9a05d 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -265,9 +265,14 @@ class CaliperReader:
                         else self.json_nodes[int(x)]["label"]
                     )
                 else:
+                    # records that lack this attribute have no entry (null)
                     self.df_json_data[self.json_cols[idx]] = self.df_json_data[
                         self.json_cols[idx]
-                    ].apply(lambda x: self.json_nodes[x]["label"])
+                    ].apply(
+                        lambda x: None
+                        if pd.isna(x)
+                        else self.json_nodes[int(x)]["label"]
+                    )
 
         # since we split sourceloc, we should update json_cols and
         # json_cols_mdata
-- 
2.43.0


From dd47dcb20d5c714c57e1731e44ea3a608dde64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 38/85] fix: Caliper statement nodes merge equal line numbers
 of different files

---
 hatchet/readers/caliper_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index bb9a05d..a9aff03 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -293,15 +293,14 @@ class CaliperReader:
             df_concat = [self.df_json_data]
 
             for nid, super_node in unique_nodes:
-                line_groups = super_node.groupby("line")
+                line_groups = super_node.groupby(["file", "line"])
                 # only need to do something if there are more than one
                 # file:line number entries for the node
                 if len(line_groups.size()) > 1:
                     sn_hnode = self.idx_to_node[nid]["node"]
 
-                    for line, line_group in line_groups:
+                    for (file_path, line), line_group in line_groups:
                         # create the node label
-                        file_path = (line_group.head(1))["file"].item()
                         file_name = os.path.basename(file_path)
                         node_label = file_name + ":" + line
 
-- 
2.43.0


From 1c90b80a0b95636b6fdf0cfac17d38fc77dc4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 39/85] fix: nodes of gprof DOT files list the parent they are
 first seen under twice

---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..3bc9ba5 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From 12f7b45c3200decf8d56dba6d790240bd4d6ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 40/85] fix: cProfile functions of equally named files in
 different directories are merged

---
 hatchet/readers/cprofile_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 3b3f5ca..b16cc2c 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -56,9 +56,10 @@ class CProfileReader:
         and creates a node for it and adds a new line of metadata to our
         dataframe if it does not exist.
         """
+        # files in different directories can have the same name
         u_fn_name = "{}:{}:{}".format(
             fn_name,
-            fn_data[NameData.FILE].split("/")[-1],
+            fn_data[NameData.FILE],
             fn_data[NameData.LINE],
         )
         fn_hnode = self.name_to_hnode.get(u_fn_name)
-- 
2.43.0


From 351187f8fe06403c2ca31af560682d8499934220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 41/85] fix: regions that only occur within the paths of a Spot
 dataset have no row

---
 hatchet/readers/spotdb_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 3913e1d..28cac29 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -81,6 +81,14 @@ class SpotDatasetReader:
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
 
+        # regions without a record of their own that only occur in the paths of
+        # others
+        recorded = {id(row["node"]) for row in self.df_data}
+        for root in self.roots.values():
+            for node in root.traverse():
+                if id(node) not in recorded:
+                    self.df_data.append({"name": node.frame["name"], "node": node})
+
     def read(self, default_metric="Total time (inc)"):
         """Create GraphFrame for the given Spot dataset."""
 
-- 
2.43.0


From 77459b084b9e6478b3029c6cf3bb054dffcd3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 42/85] fix: native Caliper reader keeps only the records of
 one MPI rank per node

Records were grouped by node alone, so every rank but the first was
replaced by zero rows. Keeping the ranks apart also needs the roots to
have one entry (not two) in the node table, otherwise nodes that only
occur in paths get two rows per rank.
---
 hatchet/readers/caliper_native_reader.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 171fda6..0d31303 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -87,7 +87,15 @@ class CaliperNativeReader:
             if self.filename_or_caliperreader.attribute(col).is_value():
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
-        df_new = df_metrics.groupby(df_metrics["nid"]).aggregate("first").reset_index()
+        # keep the records of different MPI ranks apart
+        groupby_cols = ["nid"]
+        if "mpi.rank" in df_metrics.columns:
+            groupby_cols.append("mpi.rank")
+        df_new = (
+            df_metrics.groupby(groupby_cols, dropna=False)
+            .aggregate("first")
+            .reset_index()
+        )
         return df_new
 
     def _reset_metrics(self, metrics):
@@ -217,15 +225,8 @@ class CaliperNativeReader:
                 if not parent_callpath:
                     list_roots.append(child_node)
 
-                    node_dict = dict(
-                        {
-                            "name": child_node.frame["name"],
-                            "node": child_node,
-                            "nid": self.global_nid,
-                        }
-                    )
-
-                    self.idx_to_node[self.global_nid] = node_dict
+                    # the root's node_dict is added where the root is created,
+                    # do not add a second one (the nid stays unused)
                     self.global_nid += 1
                 else:
                     grandparent_callpath = parent_callpath[:-1]
-- 
2.43.0


From aa4252626b2024c69f524513fad13ae65d54656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 43/85] fix: native Caliper reader has no rows for nodes
 without records

Without MPI ranks the filler rows had no nid, so the merge with the node
table dropped them and nodes that only occur in paths had no row.
---
 hatchet/readers/caliper_native_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 0d31303..7a4d8f4 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -441,6 +441,7 @@ class CaliperNativeReader:
                     if metric_rows.empty:
                         # add a single row
                         node_dict = dict(default_metric_dict)
+                        node_dict["nid"] = row["nid"]
                         missing_nodes.append(node_dict)
                 else:
                     if metric_rows.empty:
-- 
2.43.0


From b82d5cdb2c1d4004e69cd56747829b92b9fa7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 44/85] fix: statement nodes of Caliper JSON files take the ids
 of nodes without records

The new ids started after the largest recorded one, so a later node
without records was replaced in the node table by a statement node.
---
 hatchet/readers/caliper_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index a9aff03..797cb8c 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -284,7 +284,8 @@ class CaliperReader:
             self.json_cols_mdata.append({"is_value": False})
             self.json_cols_mdata.append({"is_value": False})
 
-        max_nid = self.df_json_data[self.nid_col_name].max()
+        # nodes without records have an nid as well
+        max_nid = max(self.idx_to_node)
 
         if "line" in self.df_json_data.columns:
             # split nodes that have multiple file:line numbers to have a child
-- 
2.43.0


From 76cb588de96b06aa31631f738b8294d629fcb686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 45/85] fix: timemory regions of equal names at different
 source lines overwrite each other

Nodes were looked up by the names on their path, so siblings whose
prefixes differ only in file or line shared a node and a row that held
the values of the last of them.
---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ba69ced..f0bb102 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -274,7 +274,8 @@ class TimemoryReader:
             _prop = self.properties[_metric_name]
             _frame_attrs, _extra = get_name_line_file(_node_data["node"]["prefix"])
 
-            callpath = _parent_callpath + (_frame_attrs["name"],)
+            # equally named regions may differ in the rest of the prefix (file, line)
+            callpath = _parent_callpath + (_node_data["node"]["prefix"],)
 
             # check if the node already exits.
             _hnode = self.callpath_to_node.get(callpath)
-- 
2.43.0


From 0dd830aa44748e3a5acb5d24741c05dd23e5e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 46/85] fix: timemory input with several threads but no ranks
 raises KeyError

---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index f0bb102..77e7554 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -522,7 +522,8 @@ class TimemoryReader:
             dataframe.drop(columns=["thread"], inplace=True)
             indices = ["node", "rank"]
         elif self.multiple_threads:
-            dataframe.drop(columns=["rank"], inplace=True)
+            # there is no rank without distributed memory parallelism
+            dataframe.drop(columns=["rank"], inplace=True, errors="ignore")
             indices = ["node", "thread"]
         else:
             indices = ["node"]
-- 
2.43.0


From 5abac71a0ee4c4516992da7cb55fc072d4f89440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 47/85] fix: fractional values of the root of a TAU profile
 raise ValueError

TAU writes fractional and exponent notation as well; the values of all
other lines are read as float already.
---
 hatchet/readers/tau_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index aed2af1..d2cc654 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -279,7 +279,7 @@ class TAUReader:
             root_name = root_line.group(1).strip(" ")
             # convert it to a tuple to use it as a key in callpath_to_node dictionary
             root_callpath = tuple([root_name])
-            root_values = list(map(int, root_line.group(2).split(" ")[:-1]))
+            root_values = list(map(float, root_line.group(2).split(" ")[:-1]))
 
             # After first profile.0.0.0, only get Excl and Incl metric values
             # from other files since other columns will be the same.
@@ -297,7 +297,9 @@ class TAUReader:
                     + "\nLine: 2"
                 )
                 root_line = re.match(r"\"(.*)\"\s(.*)\sG", file_data[f_index][0])
-                root_values.extend(list(map(int, root_line.group(2).split(" ")[2:4])))
+                root_values.extend(
+                    list(map(float, root_line.group(2).split(" ")[2:4]))
+                )
 
             # Check if the root exists in other ranks.
             # Note that we assume the root is the same for all metric files of a rank.
-- 
2.43.0


From 677f0a5a4837be6caeadc40c6e9b31ea0373bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 48/85] fix: from_timemory raises TypeError for open file
 streams

os.path.isdir() does not accept the documented file streams.
---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 77e7554..9703389 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -573,7 +573,7 @@ class TimemoryReader:
         if isinstance(self.input, dict):
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
-        elif os.path.isdir(self.input):
+        elif isinstance(self.input, str) and os.path.isdir(self.input):
             tree_files = glob.glob(self.input + "/*.tree.json")
             for file in tree_files:
                 # read all files that end with .tree.json.
-- 
2.43.0


From e907df39e704a33e2cc0c3c80dc9f23e2fb8867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 49/85] fix: from_timemory changes the dictionary it reads

---
 hatchet/readers/timemory_reader.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 9703389..8558bfd 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -82,14 +82,10 @@ class TimemoryReader:
         list_roots = []
 
         def remove_keys(_dict, _keys):
-            """Remove keys from dictionary"""
+            """Return the dictionary without some keys"""
             if isinstance(_keys, str):
-                if _keys in _dict:
-                    del _dict[_keys]
-            else:
-                for _key in _keys:
-                    _dict = remove_keys(_dict, _key)
-            return _dict
+                _keys = [_keys]
+            return {_key: _val for _key, _val in _dict.items() if _key not in _keys}
 
         def add_metrics(_dict):
             """Add any keys to metric_cols which don't already exist"""
-- 
2.43.0


From 302e2ddbeb5bcffc03eefb24e72302c1af3770bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 50/85] fix: metric lists of timeseries profiles repeat each
 metric once per profile

---
 hatchet/readers/caliper_native_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 7a4d8f4..63ec8ec 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -84,7 +84,11 @@ class CaliperNativeReader:
     def _create_metric_df(self, metrics):
         """Make a list of metric columns and create a dataframe, group by node"""
         for col in self.record_data_cols:
-            if self.filename_or_caliperreader.attribute(col).is_value():
+            # timeseries come here once per profile
+            if (
+                self.filename_or_caliperreader.attribute(col).is_value()
+                and col not in self.metric_cols
+            ):
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
         # keep the records of different MPI ranks apart
-- 
2.43.0


From 5458a5dc3b93dec3945c5a92f0355f2dc6f5c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 51/85] fix: unify raises IndexError when a graphframe has no
 rows

The unfinished shortcut in fast_not_isin read the first row of an empty array
(and took a key of 2**64-1 for one seen before).
---
 hatchet/cython_modules/graphframe_modules.pyx | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/hatchet/cython_modules/graphframe_modules.pyx b/hatchet/cython_modules/graphframe_modules.pyx
index 54582de..ef665de 100644
--- a/hatchet/cython_modules/graphframe_modules.pyx
+++ b/hatchet/cython_modules/graphframe_modules.pyx
@@ -31,21 +31,14 @@ cpdef fast_not_isin(const unsigned long long[:,:] arr1, const unsigned long long
     """
     result = np.zeros(len(arr1), dtype=np.bool_)
     cdef long index = -1
-    cdef unsigned long long prior = -1
     cdef long i = 0
 
     for i in range(arr1_len):
-        # mini optimization: don't perform binsearch if we already know node is/isnot in graph
-        if prior == arr1[i][0]:
-            result[arr1[i][1]] = result[arr1[i-1][1]]
+        index = binary_search(arr2, arr2_len, arr1[i][0])
+        if index == -1:
+            result[arr1[i][1]] = True
         else:
-            index = binary_search(arr2, arr2_len, arr1[i][0])
-            if index == -1:
-                result[arr1[i][1]] = True
-            else:
-                result[arr1[i][1]] = False
-
-    prior = arr1[i][0]
+            result[arr1[i][1]] = False
 
     return result
 
-- 
2.43.0


From 002af1a9c3b662ded90770215287e938ffd63e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 52/85] fix: HPCToolkit statements take the file of whatever
 was read before them

and those of unnamed (inlined) procedures are not subtracted from the node
that they are added to.
---
 hatchet/readers/hpctoolkit_reader.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index a0e0dae..f270f36 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -280,7 +280,7 @@ class HPCToolkitReader:
 
             # start graph construction at the root
             with self.timer.phase("graph construction"):
-                self.parse_xml_children(root, graph_root)
+                self.parse_xml_children(root, graph_root, nid)
 
             # put updated metrics back in dataframe
             for i, column in enumerate(self.metric_columns):
@@ -318,14 +318,19 @@ class HPCToolkitReader:
 
         return hatchet.graphframe.GraphFrame(graph, dataframe, exc_metrics, inc_metrics)
 
-    def parse_xml_children(self, xml_node, hnode):
-        """Parses all children of an XML node."""
+    def parse_xml_children(self, xml_node, hnode, nid):
+        """Parses all children of an XML node, nid is the id of hnode."""
+        global src_file
+        parent_src_file = src_file
+
         for xml_child in xml_node:
             if xml_child.tag != "M":
-                nid = int(xml_node.get("i"))
                 line = int(xml_node.get("l"))
                 self.parse_xml_node(xml_child, nid, line, hnode)
 
+                # the children of xml_child may be in other files
+                src_file = parent_src_file
+
     def parse_xml_node(self, xml_node, parent_nid, parent_line, hparent):
         """Parses an XML node and its children recursively."""
         nid = int(xml_node.get("i"))
@@ -408,11 +413,11 @@ class HPCToolkitReader:
             # for Prs, the preceding Pr has the calling line number and for
             # PFs, the preceding C has the line number
             line = int(xml_node.get("l"))
-            self.parse_xml_children(xml_node, hparent)
+            self.parse_xml_children(xml_node, hparent, parent_nid)
         else:
             self.node_dicts.append(node_dict)
             hparent.add_child(hnode)
-            self.parse_xml_children(xml_node, hnode)
+            self.parse_xml_children(xml_node, hnode, nid)
 
     def create_node_dict(self, nid, hnode, name, node_type, src_file, line, module):
         """Create a dict with all the node attributes."""
-- 
2.43.0


From fbd94dc61282553e92fa3c13384462a3a0dda622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 53/85] fix: HPCToolkit profiles whose ranks differ in threads
 lose metrics

Ranks with more threads than the average overwrote the values of other ranks.
---
 hatchet/readers/hpctoolkit_reader.py | 72 +++++++++-------------------
 1 file changed, 23 insertions(+), 49 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index f270f36..9bfaa8a 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -48,22 +48,22 @@ def init_shared_array(buf_):
     shared_metrics = buf_
 
 
+def rank_and_thread(filename):
+    """Get the rank and thread ids from the name of a metricdb file."""
+    match = re.search(r"\-(\d+)\-(\d+)\-([\w\d]+)\-(\d+)\-\d.metric-db$", filename)
+    return int(match.group(1)), int(match.group(2))
+
+
 def read_metricdb_file(args):
     """Read a single metricdb file into a 1D array."""
     (
+        file_index,
         filename,
         num_nodes,
-        num_threads_per_rank,
-        num_cpu_threads_per_rank,
         num_metrics,
         shape,
     ) = args
-    rank = int(
-        re.search(r"\-(\d+)\-(\d+)\-([\w\d]+)\-(\d+)\-\d.metric-db$", filename).group(1)
-    )
-    thread = int(
-        re.search(r"\-(\d+)\-(\d+)\-([\w\d]+)\-(\d+)\-\d.metric-db$", filename).group(2)
-    )
+    rank, thread = rank_and_thread(filename)
 
     with open(filename, "rb") as metricdb:
         metricdb.seek(32)
@@ -73,19 +73,14 @@ def read_metricdb_file(args):
 
     arr = np.frombuffer(shared_metrics).reshape(shape)
 
-    # copy the data in the right place in the larger 2D array of metrics
-    if thread < 500:
-        rank_offset = (rank * num_threads_per_rank + thread) * num_nodes
-    else:
-        # GPU streams in hpctoolkit 2021.05.15 start at thread id 500
-        rank_offset = (
-            rank * num_threads_per_rank + num_cpu_threads_per_rank + (thread - 500)
-        ) * num_nodes
+    # copy the data in the right place in the larger 2D array of metrics. Ranks
+    # may differ in their threads, so go by the position of the file.
+    offset = file_index * num_nodes
 
-    arr[rank_offset : rank_offset + num_nodes, :num_metrics].flat = arr1d.flat
-    arr[rank_offset : rank_offset + num_nodes, num_metrics] = range(1, num_nodes + 1)
-    arr[rank_offset : rank_offset + num_nodes, num_metrics + 1] = rank
-    arr[rank_offset : rank_offset + num_nodes, num_metrics + 2] = thread
+    arr[offset : offset + num_nodes, :num_metrics].flat = arr1d.flat
+    arr[offset : offset + num_nodes, num_metrics] = range(1, num_nodes + 1)
+    arr[offset : offset + num_nodes, num_metrics + 1] = rank
+    arr[offset : offset + num_nodes, num_metrics + 2] = thread
 
 
 class HPCToolkitReader:
@@ -110,16 +105,11 @@ class HPCToolkitReader:
         metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
         self.num_metricdb_files = len(metricdb_files)
 
-        # We need to know how many threads per rank there are. This counts the
-        # number of thread 0 metric-db files (i.e., number of ranks), then
-        # uses this as the divisor to the total number of metric-db files.
-        metricdb_numranks_files = glob.glob(self.dir_name + "/*-000-*.metric-db")
-        self.num_ranks = len(metricdb_numranks_files)
-        self.num_threads_per_rank = int(
-            self.num_metricdb_files / len(metricdb_numranks_files)
-        )
-
-        self.num_cpu_threads_per_rank = self.count_cpu_threads_per_rank()
+        # We need to know how many ranks, and how many threads per rank there
+        # are (if ranks differ, how many there are at most).
+        ranks = [rank_and_thread(filename)[0] for filename in metricdb_files]
+        self.num_ranks = len(set(ranks))
+        self.num_threads_per_rank = max(ranks.count(rank) for rank in set(ranks))
 
         # Read one metric-db file to extract the number of nodes in the CCT
         # and the number of metrics
@@ -192,14 +182,13 @@ class HPCToolkitReader:
         self.metrics = np.frombuffer(shared_buffer).reshape(shape)
         args = [
             (
+                file_index,
                 filename,
                 self.num_nodes,
-                self.num_threads_per_rank,
-                self.num_cpu_threads_per_rank,
                 self.num_metrics,
                 shape,
             )
-            for filename in metricdb_files
+            for file_index, filename in enumerate(metricdb_files)
         ]
         try:
             pool.map(read_metricdb_file, args)
@@ -232,7 +221,7 @@ class HPCToolkitReader:
 
         # getting the number of execution threads for our stride in
         # subtract_exclusive_metric_vals/ num nodes is already calculated
-        self.total_execution_threads = self.num_threads_per_rank * self.num_ranks
+        self.total_execution_threads = self.num_metricdb_files
 
     def read(self):
         """Read the experiment.xml file to extract the calling context tree and create
@@ -432,18 +421,3 @@ class HPCToolkitReader:
         }
 
         return node_dict
-
-    def count_cpu_threads_per_rank(self):
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
-        cpu_thread_ids = set()
-
-        for filename in metricdb_files:
-            thread = int(
-                re.search(
-                    r"\-(\d+)\-(\d+)\-([\w\d]+)\-(\d+)\-\d.metric-db$", filename
-                ).group(2)
-            )
-            if thread < 500:
-                cpu_thread_ids.add(thread)
-
-        return len(cpu_thread_ids)
-- 
2.43.0


From c867d7a14cdc9c9e17273fe7fe13042fddb80a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 54/85] fix: a wrong colormap name raises AttributeError
 instead of ValueError

---
 hatchet/util/colormaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/colormaps.py b/hatchet/util/colormaps.py
index b3b23ce..6746546 100644
--- a/hatchet/util/colormaps.py
+++ b/hatchet/util/colormaps.py
@@ -125,7 +125,7 @@ class ColorMaps:
             self.colors = self.Spectral.copy()
         else:
             raise ValueError(
-                self.colormap
+                colormap
                 + " is an incorrect colormap. Select one BrBG, PiYg, PRGn,"
                 + " PuOr, RdBu, RdGy, RdYlBu, RdYlGn, or Spectral."
             )
-- 
2.43.0


From 51defd08d79d0b3a1d69240debf2521d902a681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 55/85] fix: from_lists raises UnboundLocalError or TypeError
 for a wrong item

---
 hatchet/graph.py | 2 +-
 hatchet/node.py  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 057f64c..d3190a6 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -360,7 +360,7 @@ class Graph:
         """Convenience method to invoke Node.from_lists() on each root value."""
         if not all(isinstance(r, (list, tuple)) for r in roots):
             raise ValueError(
-                "All arguments to Graph.from_lists() must be lists: %s" % roots
+                "All arguments to Graph.from_lists() must be lists: %s" % (roots,)
             )
 
         graph = Graph([Node.from_lists(r) for r in roots])
diff --git a/hatchet/node.py b/hatchet/node.py
index a9d5cc9..80358d1 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -264,6 +264,10 @@ In the above examples, the 'a' represents a Node with its
                     node = lists[0]
                 elif isinstance(lists[0], str):
                     node = Node(Frame(name=lists[0]))
+                else:
+                    raise ValueError(
+                        "First element of a list must be str or Node: %s" % (lists[0],)
+                    )
                 children = lists[1:]
                 for val in children:
                     _ = _from_lists(val, node)
-- 
2.43.0


From 97eb4e171875b6b926b9a050a0d2240c7c4fe745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 56/85] fix: the default metric of native Caliper and TAU
 profiles is a metric they have

---
 hatchet/readers/caliper_native_reader.py | 2 +-
 hatchet/readers/tau_reader.py            | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 63ec8ec..9e0c750 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -544,7 +544,7 @@ class CaliperNativeReader:
 
             # set the default metric
             if self.default_metric is None:
-                if "time (inc)" in dataframe.columns:
+                if "time (inc)" in dataframe.columns and "time" in dataframe.columns:
                     self.default_metric = "time"
                 elif "avg#inclusive#sum#time.duration" in dataframe.columns:
                     self.default_metric = "avg#inclusive#sum#time.duration"
diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index d2cc654..4c74479 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -502,6 +502,9 @@ class TAUReader:
             dataframe = dataframe.stack()
 
         default_metric = "time (inc)"
+        if default_metric not in dataframe.columns and self.inc_metrics:
+            # the time was not measured
+            default_metric = self.inc_metrics[0]
 
         return hatchet.graphframe.GraphFrame(
             graph, dataframe, self.exc_metrics, self.inc_metrics, default_metric
-- 
2.43.0


From f72566f5075d2349a9c43dddb99231cce9e4ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 57/85] fix: in-place division changes the left graphframe in
 Python 3

---
 hatchet/graphframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 8261fc8..32475c7 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1683,6 +1683,9 @@ class GraphFrame:
 
         return self._operator(other_copy, self.dataframe.div)
 
+    # name of the operator in Python 3
+    __itruediv__ = __idiv__
+
     def __truediv__(self, other):
         """Returns the column-wise float division of two graphframes as a new
         graphframe.
-- 
2.43.0


From 7ee20a0642c1ad377b3968a48bc62c2dd83358e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 58/85] fix: a timer phase replaced by the next start_phase
 loses its earlier intervals

---
 hatchet/util/timer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/util/timer.py b/hatchet/util/timer.py
index 03960a3..f5eb3e8 100644
--- a/hatchet/util/timer.py
+++ b/hatchet/util/timer.py
@@ -5,7 +5,7 @@
 
 from collections import OrderedDict
 from contextlib import contextmanager
-from datetime import datetime
+from datetime import datetime, timedelta
 from io import StringIO
 
 
@@ -23,7 +23,9 @@ class Timer(object):
 
         if self._phase:
             delta = now - self._start_time
-            self._times[self._phase] = delta
+            self._times[self._phase] = (
+                self._times.get(self._phase, timedelta()) + delta
+            )
 
         self._phase = phase
         self._start_time = now
-- 
2.43.0


From 2dcb9b5df61491c78c9eddce17a24663b79599cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 59/85] fix: a timer phase left by an exception goes on, and
 takes the time of the next one

---
 hatchet/util/timer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/util/timer.py b/hatchet/util/timer.py
index f5eb3e8..a308439 100644
--- a/hatchet/util/timer.py
+++ b/hatchet/util/timer.py
@@ -54,5 +54,7 @@ class Timer(object):
     @contextmanager
     def phase(self, name):
         self.start_phase(name)
-        yield
-        self.end_phase()
+        try:
+            yield
+        finally:
+            self.end_phase()
-- 
2.43.0


From a4f1bf4249ce3259253d7e7f0cef880bfb2b19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 60/85] fix: the profiler overwrites a file written in the same
 second

---
 hatchet/util/profiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 22ce80d..01ad497 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -109,5 +109,11 @@ class Profiler:
         else:
             if os.path.exists(filename):
                 now = datetime.now().strftime("%H%M%S")
-                filename = "{}_{}.pstats".format(filename, now)
+                base = "{}_{}".format(filename, now)
+                filename = base + ".pstats"
+                # Several files may be written in the same second.
+                count = 1
+                while os.path.exists(filename):
+                    count += 1
+                    filename = "{}_{}.pstats".format(base, count)
             sts.dump_stats(filename)
-- 
2.43.0


From 035b8bd9e6247a2cf55193b5d04b695661106732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 61/85] fix: printing or writing a running profile ends it

---
 hatchet/util/profiler.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 01ad497..1e6d08e 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -75,12 +75,22 @@ class Profiler:
 
         self._prf = cProfile.Profile()
 
+    def _stats(self, **kwargs):
+        """
+        Statistics recorded so far. Reading them makes cProfile stop, so a
+        running profile has to be resumed.
+        """
+        sts = pstats.Stats(self._prf, **kwargs)
+        if self._active:
+            self._prf.enable()
+        return sts
+
     def __str__(self):
         """
         Description: Writes stats object out as a string.
         """
         s = StringIO()
-        pstats.Stats(self._prf, stream=s).print_stats()
+        self._stats(stream=s).print_stats()
         return s.getvalue()
 
     def write_to_file(self, filename="", add_pstats_files=[]):
@@ -88,7 +98,7 @@ class Profiler:
         Description: Write the pstats object to a binary
         file to be read in by an appropriate source.
         """
-        sts = pstats.Stats(self._prf)
+        sts = self._stats()
 
         if len(add_pstats_files) > 0:
             for stats_file in add_pstats_files:
-- 
2.43.0


From 19b71191632f2f73a503da414a4b6f11c1ed8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 62/85] fix: values with backslashes, quotes or line ends do
 not reach notebook views intact

---
 .../external/roundtrip/roundtrip/manager.py   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 1b37973..4c68154 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -44,6 +44,24 @@ def _default_from_converter(data):
     return data
 
 
+def _escape(data):
+    """
+    Escapes a string for use within a JavaScript string literal.
+
+    :param data: The string which is placed between quotes in JavaScript code.
+    :returns: The string with backslashes, quotes and line ends escaped.
+    """
+    for char, escaped in (
+        ("\\", "\\\\"),
+        ('"', '\\"'),
+        ("'", "\\'"),
+        ("\n", "\\n"),
+        ("\r", "\\r"),
+    ):
+        data = data.replace(char, escaped)
+    return data
+
+
 class RoundTrip:
     """
     Core Roundtrip class.
@@ -370,7 +388,9 @@ class RoundTrip:
                         break
 
         for flag in update_flags:
-            new_data = self.watched[flag]["converter"](self.shell.user_ns[flag])
+            new_data = _escape(
+                self.watched[flag]["converter"](self.shell.user_ns[flag])
+            )
             for var in self.watched[flag]["js_var"]:
                 code += update_hook.format(js_var=var, data=new_data, var=flag)
         if code != "":
@@ -482,7 +502,7 @@ class Bridge:
             pass
 
         # Patch: Ensure all ' and " are escaped
-        data = data.replace('"', '\\"').replace("'", "\\'")
+        data = _escape(data)
 
         conv_spec = None
 
-- 
2.43.0


From 2d567090f618d671f05996a921a37d3daf9a4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 63/85] fix: running a cell with a watched variable again
 unbinds the other views of it

---
 hatchet/external/roundtrip/roundtrip/manager.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 4c68154..795b5b7 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -303,11 +303,9 @@ class RoundTrip:
 
             jup_var = jup_var[1:]
 
-            if (
-                jup_var in self.watched.keys()
-                and js_variable not in self.watched[jup_var]["js_var"]
-            ):
-                self.watched[jup_var]["js_var"].append(js_variable)
+            if jup_var in self.watched.keys():
+                if js_variable not in self.watched[jup_var]["js_var"]:
+                    self.watched[jup_var]["js_var"].append(js_variable)
             else:
                 self.watched[jup_var] = {
                     "converter": to_js_converter,
-- 
2.43.0


From cfa1e048adf9b62f7d7f86115ebcf19956a3f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 64/85] fix: graphframes with integer metrics cannot be shown
 in the call tree view

---
 hatchet/vis/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/vis/loader.py b/hatchet/vis/loader.py
index 902dce8..a290c29 100644
--- a/hatchet/vis/loader.py
+++ b/hatchet/vis/loader.py
@@ -15,9 +15,12 @@ vis_dir = dirname(path.abspath(__file__))
 
 def _gf_to_json(data):
     import json
+    import numpy as np
     from pandas import Series
 
     def serialize(obj):
+        if isinstance(obj, np.generic):
+            return obj.item()
         if isinstance(obj, Series):
             return obj.to_json
         return obj.__dict__
-- 
2.43.0


From 788c7cd9c123adc1cc79a87a9b7872d87ac5fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 65/85] fix: views loaded with load_web_files share one element
 and are drawn into the first cell

---
 hatchet/external/roundtrip/roundtrip/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 795b5b7..42420eb 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -228,6 +228,9 @@ class RoundTrip:
                 output_html += self._file_formatter(file)
 
         bdg = Bridge(output_html, scripts, self.shell, self.istest)
+
+        self.scrid += 1
+
         self.bridges[bdg.id] = bdg
         self.last_id = bdg.id
 
-- 
2.43.0


From fb1a5aba6659f191fe7ad0c08a67fd5bcc2a4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 66/85] fix: loading a view returns the builtin id instead of
 the view's id

---
 hatchet/external/roundtrip/roundtrip/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 42420eb..4ecb95e 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -186,7 +186,7 @@ class RoundTrip:
         self.bridges[bdg.id] = bdg
         self.last_id = bdg.id
 
-        return id
+        return bdg.id
 
     def load_web_files(self, files):
         """
@@ -234,7 +234,7 @@ class RoundTrip:
         self.bridges[bdg.id] = bdg
         self.last_id = bdg.id
 
-        return id
+        return bdg.id
 
     # Passing to JS is working now
     def data_to_js(
-- 
2.43.0


From 6f701ea4ac7dca549caf445ffbeb0dff45d73bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 67/85] fix: generate_exclusive_columns keeps an existing
 "(exc)" metric

---
 hatchet/graphframe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 32475c7..3b0408d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -835,9 +835,9 @@ class GraphFrame:
                 if possible_exc not in self.exc_metrics:
                     generation_pairs.append((possible_exc, inc))
             # If there is an inclusive metric without the "(inc)" suffix,
-            # assume that there is no corresponding exclusive metric. So, add this new exclusive metrics (with the "(exc)"
-            # suffix) to the generation list.
-            else:
+            # and there is no exclusive metric with the same name plus the "(exc)" suffix, add this new exclusive
+            # metric to the generation list.
+            elif inc + " (exc)" not in self.exc_metrics:
                 generation_pairs.append((inc + " (exc)", inc))
         # Consider each new exclusive metric and its corresponding inclusive metric
         for exc, inc in generation_pairs:
-- 
2.43.0


From 61cee671967b01c4b800a1fa96c0fca8a80e37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 68/85] fix: %cct of a literal tree leaves a file "check"
 behind

---
 hatchet/vis/loader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hatchet/vis/loader.py b/hatchet/vis/loader.py
index a290c29..f3ab8ee 100644
--- a/hatchet/vis/loader.py
+++ b/hatchet/vis/loader.py
@@ -29,8 +29,6 @@ def _gf_to_json(data):
         if isinstance(data, GraphFrame):
             return json.dumps(data.to_literal(), default=serialize)
         else:
-            with open("check", "w") as f:
-                f.write(json.dumps(data, default=serialize))
             return json.dumps(data, default=serialize)
     except ValueError:
         raise "Input data is not of type graphframe or json serializable."
-- 
2.43.0


From e4e0f6b265993e159d6cec992d1321108618ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 69/85] fix: cupti activities launched from a root region get
 their own node

---
 hatchet/readers/caliper_native_reader.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 9e0c750..5c7a760 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -81,6 +81,14 @@ class CaliperNativeReader:
         if isinstance(self.string_attributes, str):
             self.string_attributes = [self.string_attributes]
 
+    def _record_path(self, record, ctx):
+        """Get the path of a record. The path of a cupti activity is the region
+        it was launched from, which is a string (not a list) for a root region.
+        """
+        if "cupti.activity.kind" in record and not isinstance(record[ctx], list):
+            return [record[ctx]]
+        return record[ctx]
+
     def _create_metric_df(self, metrics):
         """Make a list of metric columns and create a dataframe, group by node"""
         for col in self.record_data_cols:
@@ -148,15 +156,16 @@ class CaliperNativeReader:
                     and record["spot.channel"] == "regionprofile"
                 ) or "spot.channel" not in record:
                     # get the node label and callpath for the record
-                    if isinstance(record[ctx], list):
+                    path = self._record_path(record, ctx)
+                    if isinstance(path, list):
                         # specify how to parse cupti records
                         if "cupti.activity.kind" in record:
                             if record["cupti.activity.kind"] == "kernel":
                                 node_label = record["cupti.kernel.name"]
-                                node_callpath = tuple(record[ctx] + [node_label])
+                                node_callpath = tuple(path + [node_label])
                             elif record["cupti.activity.kind"] == "memcpy":
                                 node_label = record["cupti.activity.kind"]
-                                node_callpath = tuple(record[ctx] + [node_label])
+                                node_callpath = tuple(path + [node_label])
                         else:
                             node_label = record[ctx][-1]
                             node_callpath = tuple(record[ctx])
@@ -269,17 +278,18 @@ class CaliperNativeReader:
                     and record["spot.channel"] == "regionprofile"
                 ) or "spot.channel" not in record:
                     # if it's a list, then it's a callpath
-                    if isinstance(record[ctx], list):
+                    path = self._record_path(record, ctx)
+                    if isinstance(path, list):
                         # specify how to parse cupti records
                         if "cupti.activity.kind" in record:
                             if record["cupti.activity.kind"] == "kernel":
                                 node_label = record["cupti.kernel.name"]
-                                node_callpath = tuple(record[ctx] + [node_label])
+                                node_callpath = tuple(path + [node_label])
                                 parent_callpath = node_callpath[:-1]
                                 node_type = "kernel"
                             elif record["cupti.activity.kind"] == "memcpy":
                                 node_label = record["cupti.activity.kind"]
-                                node_callpath = tuple(record[ctx] + [node_label])
+                                node_callpath = tuple(path + [node_label])
                                 parent_callpath = node_callpath[:-1]
                                 node_type = "memcpy"
                             else:
-- 
2.43.0


From d29498a0fb7de39946796e3dc1bbff34dcfd8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 70/85] fix: cupti activities other than kernel and memcpy get
 their own node

---
 hatchet/readers/caliper_native_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 5c7a760..9e7bccc 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -163,7 +163,7 @@ class CaliperNativeReader:
                             if record["cupti.activity.kind"] == "kernel":
                                 node_label = record["cupti.kernel.name"]
                                 node_callpath = tuple(path + [node_label])
-                            elif record["cupti.activity.kind"] == "memcpy":
+                            else:
                                 node_label = record["cupti.activity.kind"]
                                 node_callpath = tuple(path + [node_label])
                         else:
@@ -287,13 +287,12 @@ class CaliperNativeReader:
                                 node_callpath = tuple(path + [node_label])
                                 parent_callpath = node_callpath[:-1]
                                 node_type = "kernel"
-                            elif record["cupti.activity.kind"] == "memcpy":
+                            else:
+                                # memcpy, memset, ...
                                 node_label = record["cupti.activity.kind"]
                                 node_callpath = tuple(path + [node_label])
                                 parent_callpath = node_callpath[:-1]
-                                node_type = "memcpy"
-                            else:
-                                Exception("Haven't seen this activity kind yet")
+                                node_type = node_label
                         else:
                             node_label = record[ctx][-1]
                             node_callpath = tuple(record[ctx])
-- 
2.43.0


From 1a7c666d7b7daa359f6407273786bb7931a19048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 71/85] fix: recursive functions that are profiled directly are
 missing from cProfile graphs

---
 hatchet/readers/cprofile_reader.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index b16cc2c..ddf6d35 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -79,6 +79,11 @@ class CProfileReader:
         """Gets the source/parent of our current desitnation node"""
         return stat[StatData.SRCNODE]
 
+    def _is_called_directly(self, stat):
+        """Checks for calls of a function that none of its sources made"""
+        calls = [c[0] if isinstance(c, tuple) else c for c in self._get_src(stat).values()]
+        return stat[StatData.NATIVECALLS] > sum(calls)
+
     def _add_node_metadata(self, stat_name, stat_module_data, stats, hnode):
         """Puts all the metadata associated with a node in a dictionary to insert into pandas."""
         node_dict = {
@@ -123,6 +128,18 @@ class CProfileReader:
                         dst_hnode.add_parent(src_hnode)
                         src_hnode.add_child(dst_hnode)
 
+        # a recursive function has sources even if it is profiled directly, add
+        # it if it cannot be reached from another root
+        visited = {}
+        for root in list_roots:
+            list(root.traverse(visited=visited))
+        for module_data, stats in stats_dict.items():
+            name = module_data[NameData.FNCNAME]
+            hnode = self._create_node_and_row(module_data, name, stats_dict)
+            if id(hnode) not in visited and self._is_called_directly(stats):
+                list_roots.append(hnode)
+                list(hnode.traverse(visited=visited))
+
         return list_roots
 
     def read(self):
-- 
2.43.0


From 81d432b967a8b0d33475c194940f1a8519b4efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 72/85] fix: recursive functions without other callers are
 missing from gprof graphs

---
 hatchet/readers/gprof_dot_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 3bc9ba5..6f10b4d 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -89,10 +89,10 @@ class GprofDotReader:
                     }
                     self.name_to_dict[node_name] = node_dict
 
-        # add all nodes with no parents to the list of roots
+        # add all nodes with no parents (but themselves) to the list of roots
         list_roots = []
         for (key, val) in self.name_to_hnode.items():
-            if not val.parents:
+            if all(parent is val for parent in val.parents):
                 list_roots.append(val)
 
         return list_roots
-- 
2.43.0


From 89f3352adb7b88ce04a1a63fcddd0c666e51eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 73/85] fix: compound queries without subqueries raise
 IndexError

---
 hatchet/query/compat.py   | 2 +-
 hatchet/query/compound.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/compat.py b/hatchet/query/compat.py
index b94433f..fc2b8ae 100644
--- a/hatchet/query/compat.py
+++ b/hatchet/query/compat.py
@@ -98,7 +98,7 @@ class NaryQuery(AbstractQuery):
             *args (AbstractQuery, str, or list): the subqueries to be performed
         """
         self.compat_subqueries = []
-        if isinstance(args[0], tuple) and len(args) == 1:
+        if len(args) == 1 and isinstance(args[0], tuple):
             args = args[0]
         for query in args:
             if isinstance(query, list):
diff --git a/hatchet/query/compound.py b/hatchet/query/compound.py
index be6ffdd..d5ed128 100644
--- a/hatchet/query/compound.py
+++ b/hatchet/query/compound.py
@@ -24,7 +24,7 @@ class CompoundQuery(object):
             *queries (Query, CompoundQuery, list, or str): the subqueries of the compound query
         """
         self.subqueries = []
-        if isinstance(queries[0], tuple) and len(queries) == 1:
+        if len(queries) == 1 and isinstance(queries[0], tuple):
             queries = queries[0]
         for query in queries:
             if issubclass(type(query), Query) or issubclass(type(query), CompoundQuery):
-- 
2.43.0


From 9a8d8977a1a4f9e2775dd32bfa0b0cb5892cc3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 74/85] fix: drop_index_levels leaves its table without index
 when the function fails

---
 hatchet/graphframe.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 3b0408d..4f89e63 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -435,8 +435,7 @@ class GraphFrame:
                 agg_dict[col] = lambda x: x.iloc[0]
 
         # perform a groupby to merge nodes that just differ in index columns
-        self.dataframe.reset_index(level="node", inplace=True)
-        agg_df = self.dataframe.groupby("node").agg(agg_dict)
+        agg_df = self.dataframe.reset_index(level="node").groupby("node").agg(agg_dict)
 
         self.dataframe = agg_df
 
-- 
2.43.0


From 2d59fc5ca0ba25322e7764fa9ac38ca75657f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 75/85] fix: sums over unequally many columns change the table
 before they are refused

---
 hatchet/graphframe.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 4f89e63..26b9412 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -654,14 +654,13 @@ class GraphFrame:
         """Helper function for subtree_sum and subgraph_sum."""
         if out_columns is None:
             out_columns = columns
+        elif len(columns) != len(out_columns):
+            raise ValueError("columns out_columns must be the same length!")
         else:
             # init out columns with input columns in case they are not there.
             for col, out in zip(columns, out_columns):
                 self.dataframe[out] = self.dataframe[col]
 
-        if len(columns) != len(out_columns):
-            raise ValueError("columns out_columns must be the same length!")
-
         return out_columns
 
     def subtree_sum(
-- 
2.43.0


From 90a3d2fbf18ec41dadf8c14183a346fc42a64b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 76/85] fix: from_timemory without input returns None

---
 hatchet/graphframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 26b9412..68b178d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -304,7 +304,9 @@ class GraphFrame:
             try:
                 import timemory
 
-                TimemoryReader(timemory.get(hierarchy=True), select, **_kwargs).read()
+                return TimemoryReader(
+                    timemory.get(hierarchy=True), select, **_kwargs
+                ).read()
             except ImportError:
                 print(
                     "Error! timemory could not be imported. Provide filename, file stream, or dict."
-- 
2.43.0


From 7c39f57c259f88a5504bb24058738b1725d0d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 77/85] fix: from_tau with both TIME and CPU_TIME keeps both
 metrics

---
 hatchet/readers/tau_reader.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 4c74479..4d44b58 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -208,6 +208,7 @@ class TAUReader:
             second line (metadata) of these files.
             """
             columns = []
+            metric_names = []
             for file_index in range(len(first_rank_filenames)):
                 with open(first_rank_filenames[file_index], "r") as f:
                     # Skip the first line: "192 templated_functions_MULTI_TIME"
@@ -226,13 +227,19 @@ class TAUReader:
                     # Example metric_name: "PAPI_L2_TCM"
                     # TODO: Decide if Calls and Subrs should be inc or exc metrics
                     metric_name = re.search(r"<value>(.*?)<\/value>", metadata).group(1)
-                    if metric_name == "CPU_TIME" or metric_name == "TIME":
-                        metric_name = "time"
-                    elif metric_name == "Name":
-                        metric_name == "name"
-                    columns.extend([metric_name, metric_name + " (inc)"])
-                    self.exc_metrics.append(metric_name)
-                    self.inc_metrics.append(metric_name + " (inc)")
+                    metric_names.append(metric_name)
+
+            for metric_name in metric_names:
+                # both times can be measured in the same run
+                if metric_name == "TIME" or (
+                    metric_name == "CPU_TIME" and "TIME" not in metric_names
+                ):
+                    metric_name = "time"
+                elif metric_name == "Name":
+                    metric_name == "name"
+                columns.extend([metric_name, metric_name + " (inc)"])
+                self.exc_metrics.append(metric_name)
+                self.inc_metrics.append(metric_name + " (inc)")
             return columns
 
         # dirpath -> returns path of a directory, string
-- 
2.43.0


From 4f851016bdaeb548df890c1eb3421d90a2d3612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 78/85] fix: from_caliper with a call path, annotation paths
 and source locations raises ValueError

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 797cb8c..f8e9f34 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -226,7 +226,7 @@ class CaliperReader:
             agg_dict = {}
             for idx, item in enumerate(self.json_cols_mdata):
                 col = self.json_cols[idx]
-                if col != "rank" and col != "nid":
+                if col not in groupby_cols:
                     if item["is_value"] is True:
                         agg_dict[col] = np.sum
                     else:
-- 
2.43.0


From 4d9faa663dc4b56cd1b58d1ddb55f5e25efa8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 79/85] fix: from_caliperreader keeps the node order of root
 regions and of regions whose callees are recorded first

---
 hatchet/readers/caliper_native_reader.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 9e7bccc..eebfc31 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -268,7 +268,6 @@ class CaliperNativeReader:
 
         parent_hnode = None
         records = self.filename_or_caliperreader.records
-        order = -1
 
         for record in records:
             node_label = ""
@@ -277,6 +276,12 @@ class CaliperNativeReader:
                     "spot.channel" in record
                     and record["spot.channel"] == "regionprofile"
                 ) or "spot.channel" not in record:
+                    # set the _hatchet_nid by the node order column if it exists, else -1
+                    order = -1
+                    if "min#min#aggregate.slot" in record:
+                        self.node_ordering = True
+                        order = int(record["min#min#aggregate.slot"])
+
                     # if it's a list, then it's a callpath
                     path = self._record_path(record, ctx)
                     if isinstance(path, list):
@@ -302,12 +307,7 @@ class CaliperNativeReader:
                         hnode = self.callpath_to_node.get(node_callpath)
 
                         if not hnode:
-                            # set the _hatchet_nid by the node order column if it exists, else -1
-                            if "min#min#aggregate.slot" in record:
-                                self.node_ordering = True
-                                order = record["min#min#aggregate.slot"]
                             frame = Frame({"type": node_type, "name": node_label})
-                            order = int(order)
                             hnode = Node(frame, hnid=order)
                             self.callpath_to_node[node_callpath] = hnode
 
@@ -332,6 +332,9 @@ class CaliperNativeReader:
                             )
                             self.idx_to_node[self.global_nid] = node_dict
                             self.global_nid += 1
+                        elif hnode._hatchet_nid == -1:
+                            # created as the parent of an earlier record
+                            hnode._hatchet_nid = order
 
                     # if it's a string, then it's a root
                     else:
@@ -341,7 +344,7 @@ class CaliperNativeReader:
                         if root_callpath not in self.callpath_to_node:
                             # create the root since it doesn't exist
                             frame = Frame({"type": "function", "name": root_label})
-                            graph_root = Node(frame, None)
+                            graph_root = Node(frame, None, hnid=order)
 
                             # store callpaths to identify the root
                             self.callpath_to_node[root_callpath] = graph_root
@@ -358,6 +361,9 @@ class CaliperNativeReader:
 
                             self.idx_to_node[self.global_nid] = node_dict
                             self.global_nid += 1
+                        elif self.callpath_to_node[root_callpath]._hatchet_nid == -1:
+                            # created as the parent of an earlier record
+                            self.callpath_to_node[root_callpath]._hatchet_nid = order
 
         return list_roots
 
-- 
2.43.0


From af2f687a8026f918fe8cdded2e17777c7b49c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 80/85] fix: subtree_sum and subgraph_sum with an output column
 that is the input of another one

---
 hatchet/graphframe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 68b178d..7d7120e 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -660,8 +660,10 @@ class GraphFrame:
             raise ValueError("columns out_columns must be the same length!")
         else:
             # init out columns with input columns in case they are not there.
-            for col, out in zip(columns, out_columns):
-                self.dataframe[out] = self.dataframe[col]
+            # an out column can be an input column of another one
+            inputs = [self.dataframe[col].copy() for col in columns]
+            for values, out in zip(inputs, out_columns):
+                self.dataframe[out] = values
 
         return out_columns
 
@@ -758,9 +760,9 @@ class GraphFrame:
             self.subtree_sum(columns, out_columns, function)
             return
 
-        out_columns = self._init_sum_columns(columns, out_columns)
         # always sum the input values, even if the output overwrites them
         source = self.dataframe[columns].copy()
+        out_columns = self._init_sum_columns(columns, out_columns)
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
-- 
2.43.0


From a9c37dfaad0581e8da4aea88d6e362aa0394ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 81/85] fix: parts of a braced string query that are outside of
 the braces are ignored silently

---
 hatchet/query/string_dialect.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 54d6e4e..27f8b93 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1486,6 +1486,15 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         raise ValueError(
             "Curly braces must be around either a full mid-level query or a set of conditions in a single mid-level query"
         )
+    # Only compound operators (and the shared MATCH clause in the WHERE clause
+    # version) can be outside of the curly braces. Anything else would be ignored.
+    outside_braces = r"\{\}(\s*(AND|OR|XOR)\s*\{\})*\Z"
+    if condition_list is not None:
+        outside_braces = r"MATCH\s+.*\s+WHERE\s*" + outside_braces
+    if not re.match(outside_braces, re.sub(r"\{(.*?)\}", "{}", query_str), re.DOTALL):
+        raise ValueError(
+            "Only compound operators can be outside of the curly braces within the query"
+        )
     # This branch is for the WHERE clause version
     if condition_list is not None:
         # Make sure you correctly gathered curly brace-delimited regions and
-- 
2.43.0


From 05e591a3d674025754ece6efc25665649bd7f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 82/85] fix: string queries with braces refuse conditions that
 start with NOT or ask for leaves

---
 hatchet/query/string_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 27f8b93..a687381 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1450,7 +1450,7 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # WHERE clause, first, check if the region is within another
         # curly brace delimited region. If it is, do nothing (it will
         # be handled later). Otherwise, add the region to "condition_list"
-        elif re.match(r"[a-zA-Z0-9_]+\..*", substr) is not None:
+        elif re.match(r"(NOT\s+)?[a-zA-Z0-9_]+(\.|\s+IS\s)", substr) is not None:
             is_encapsulated_region = False
             if query_idxes is not None:
                 for s, e in query_idxes:
-- 
2.43.0


From 41f3b8a2cf58d6f6b4f64fa150b4c304aa97fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 83/85] fix: string queries with line breaks between or before
 their braces are refused

---
 hatchet/query/string_dialect.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index a687381..5370325 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1411,7 +1411,7 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
 
     # Find the number of curly brace-delimited regions in the query
     query_str = query_str.strip()
-    curly_brace_elems = re.findall(r"\{(.*?)\}", query_str)
+    curly_brace_elems = re.findall(r"\{(.*?)\}", query_str, re.DOTALL)
     num_curly_brace_elems = len(curly_brace_elems)
     # If there are no curly brace-delimited regions, just pass the query
     # off to the CypherQuery constructor
@@ -1420,7 +1420,7 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             query_str = query_str.decode("utf-8")
         return StringQuery(query_str, multi_index_mode)
     # Create an iterator over the curly brace-delimited regions
-    curly_brace_iter = re.finditer(r"\{(.*?)\}", query_str)
+    curly_brace_iter = re.finditer(r"\{(.*?)\}", query_str, re.DOTALL)
     # Will store curly brace-delimited regions in the WHERE clause
     condition_list = None
     # Will store curly brace-delimited regions that contain entire
@@ -1491,7 +1491,8 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
     outside_braces = r"\{\}(\s*(AND|OR|XOR)\s*\{\})*\Z"
     if condition_list is not None:
         outside_braces = r"MATCH\s+.*\s+WHERE\s*" + outside_braces
-    if not re.match(outside_braces, re.sub(r"\{(.*?)\}", "{}", query_str), re.DOTALL):
+    outside = re.sub(r"\{(.*?)\}", "{}", query_str, flags=re.DOTALL)
+    if not re.match(outside_braces, outside, re.DOTALL):
         raise ValueError(
             "Only compound operators can be outside of the curly braces within the query"
         )
@@ -1504,7 +1505,9 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
                 "Incompatible number of curly brace elements and compound operators"
             )
         # Get the MATCH clause that will be shared across the subqueries
-        match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
+        match_comp_obj = re.search(
+            r"MATCH\s+(?P<match_field>.*?)\s+WHERE", query_str, re.DOTALL
+        )
         match_comp = match_comp_obj.group("match_field")
         # Set the initial query as a CypherQuery where the MATCH clause is the
         # shared match clause and the WHERE clause is the first curly
-- 
2.43.0


From f96ae2f64c5d8346ec1b18314cfd6c6871680ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 84/85] fix: TAU reader: keep names with spaces of unwound
 frames created as parents

---
 hatchet/readers/tau_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 4d44b58..5493d84 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -96,7 +96,11 @@ class TAUReader:
                     name = "[UNWIND] " + name_and_module[0]
                 else:
                     # We just need to take name if it is a parent
-                    name = "[UNWIND] " + node_info[1].split()[0]
+                    if "[{" in node_info[1]:
+                        # the name may contain spaces
+                        name = "[UNWIND] " + node_info[1].split(" [{")[0]
+                    else:
+                        name = "[UNWIND] " + node_info[1].split()[0]
             elif symbol == " C ":
                 # Check if there is a C symbol.
                 # "C" symbol means it's a C function.
-- 
2.43.0


From 421539c5e8e7b7e7e092bfef00a5ba9f61de01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 85/85] fix: native Caliper timeseries: list metrics only for
 the profiles that have them

---
 hatchet/readers/caliper_native_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index eebfc31..e57d942 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -534,6 +534,10 @@ class CaliperNativeReader:
                 if column in ignore_columns:
                     continue
 
+                # a timeseries may record a metric only in other profiles
+                if old_to_new.get(column, column) not in df_metrics.columns:
+                    continue
+
                 # add new column names to list of metrics if inc or inclusive in
                 # old column names
                 if "(inc)" in column or "inclusive" in column:
-- 
2.43.0

