From 296f08b24101850cee408561a0b7bc86e81f7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:50 +0000
Subject: [PATCH 1/6] fix: do not modify the order by clause of the legacy body

json_to_snql stripped the "-" from the first item of a function order by in
the caller's own list, so converting the same body again lost the
descending direction.
---
 snuba_sdk/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..8556e29 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -323,7 +323,7 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-                    o[0] = first.lstrip("-")
+                    o = [first.lstrip("-"), *o[1:]]
                     direction = Direction.DESC
                 part = parse_exp(o)
             elif isinstance(o, str):
-- 
2.43.0


From f7de4234d6f027d9a9f7f3ff751ff7e26706a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:50 +0000
Subject: [PATCH 2/6] fix: serializing a metrics query does not modify it

The OR optimization replaced the query of the MetricsQuery being serialized,
so printing or comparing it gave different results before and after (or, in
another thread, during) serialization. Optimize a copy, as Query does.
---
 snuba_sdk/metrics_query.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..1044385 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,19 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        optimized = self._optimize()
+        result = MQL_PRINTER.visit(optimized)
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return replace(self, query=replace(self.query, filters=new_filters))
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From 71896023fd72906261bad9e0ec19814f4a782ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:50 +0000
Subject: [PATCH 3/6] fix: switch entity aliases off again when printing a join
 fails

A Printer that failed on a join kept printing entity aliases in the queries
it was given afterwards.
---
 snuba_sdk/visitors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..b279b25 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -331,8 +331,10 @@ class Translation(ExpressionVisitor[str]):
 @contextmanager
 def entity_aliases(translator: Translation) -> Generator[None, None, None]:
     translator.use_entity_aliases = True
-    yield
-    translator.use_entity_aliases = False
+    try:
+        yield
+    finally:
+        translator.use_entity_aliases = False
 
 
 class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
-- 
2.43.0


From 6ef0d2e4b769a03a2b3ae3690ea18b932388d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:29 +0000
Subject: [PATCH 4/6] fix: accept a Storage in Query.set_match

The constructor and the error message accept a Storage, the set method
rejected it.
---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From d1fd9aac6b34a9bff594ace10b547fe99dd6d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:32 +0000
Subject: [PATCH 5/6] fix: request and delete bodies do not expose the query's
 own data

Changing the dictionary returned by Request.to_dict or
DeleteQuery.serialize changed the request or query it was made from.
---
 snuba_sdk/delete_query.py | 3 ++-
 snuba_sdk/request.py      | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/snuba_sdk/delete_query.py b/snuba_sdk/delete_query.py
index 40d2507..b839940 100644
--- a/snuba_sdk/delete_query.py
+++ b/snuba_sdk/delete_query.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from dataclasses import dataclass
 from typing import Any, Dict, List, Union
 
@@ -42,7 +43,7 @@ class DeleteQuery(BaseQuery):
     def serialize(self) -> Union[str, Dict[str, Any]]:
         # the body of the request
         self.validate()
-        return {"columns": self.column_conditions}
+        return {"columns": deepcopy(self.column_conditions)}
 
     def print(self) -> str:
         return repr(self)
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..67c1bae 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -92,7 +92,7 @@ class Request:
                 **flags,
                 "query": self.query.serialize(),
                 "app_id": self.app_id,
-                "tenant_ids": self.tenant_ids,
+                "tenant_ids": dict(self.tenant_ids),
                 "parent_api": self.parent_api,
             }
         else:
@@ -103,7 +103,7 @@ class Request:
             "query": query,
             "dataset": self.dataset,
             "app_id": self.app_id,
-            "tenant_ids": self.tenant_ids,
+            "tenant_ids": dict(self.tenant_ids),
             "parent_api": self.parent_api,
         }
         if mql_context is not None:
-- 
2.43.0


From 84a68662eb9e4b5f51bc04b1643598e755183c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:11 +0000
Subject: [PATCH 6/6] fix: reject MQL that is not a query without relying on
 assert

With assertions off (PYTHONOPTIMIZE) parse_mql returned a plain string or
number for such text, and accepted parenthesised numbers.
---
 snuba_sdk/mql/mql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/mql/mql.py b/snuba_sdk/mql/mql.py
index b1670eb..e736bbd 100644
--- a/snuba_sdk/mql/mql.py
+++ b/snuba_sdk/mql/mql.py
@@ -131,7 +131,8 @@ def parse_mql(mql: str) -> Timeseries | Formula:
     except ParseError as e:
         raise InvalidMQLQueryError("Invalid metrics syntax") from e
     result = MQLVisitor().visit(tree)
-    assert isinstance(result, (Timeseries, Formula))
+    if not isinstance(result, (Timeseries, Formula)):
+        raise InvalidMQLQueryError("MQL must evaluate to a Timeseries or a Formula")
     return result
 
 
@@ -424,7 +425,8 @@ class MQLVisitor(NodeVisitor):  # type: ignore
     def visit_nested_expression(
         self, node: Node, children: Sequence[Any]
     ) -> Union[Timeseries, Formula]:
-        assert isinstance(children[2], (Timeseries, Formula))
+        if not isinstance(children[2], (Timeseries, Formula)):
+            raise InvalidMQLQueryError("only a Timeseries or a Formula can be nested")
         return children[2]
 
     def visit_aggregate(
-- 
2.43.0

