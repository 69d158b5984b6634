From 0df4ef06e2d7397e1595ac570759d89370b2a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 1/9] fix: child accessors: index equal to child count, last
 child of a given class

---
 src/fcsql/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index da59ee8..a834eaf 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -465,7 +465,7 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
             QueryNode: the child node of this node or ``None`` if not child was found
                        (e.g. type mismatch or index out of bounds)
         """
-        if not self.children or idx < 0 or idx > self.child_count:
+        if not self.children or idx < 0 or idx >= self.child_count:
             return None
         if not clazz:
             return self.children[idx]
@@ -497,7 +497,12 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
         Returns:
             QueryNode: the last child node of this node or ``None``
         """
-        return self.get_child(self.child_count - 1, clazz=clazz)
+        if not clazz:
+            return self.get_child(self.child_count - 1)
+        for child in reversed(self.children):
+            if isinstance(child, clazz):
+                return child
+        return None
 
     def __str__(self) -> str:
         chs = " ".join(map(str, self.children))
-- 
2.43.0


From 877e8910d2f6c30c597c426fe4e72a733ba408de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 2/9] fix: is_layer_qualifier_empty and is_regex_flags_empty
 returned the opposite

---
 src/fcsql/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index a834eaf..7205d54 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -588,7 +588,7 @@ class Expression(QueryNode):
             bool: ``True`` if no Layer Type Identifier qualifier was set, ``False`` otherwise
         """
         # NOTE: check only `self.qualifier is None` ?
-        return bool(self.qualifier)
+        return not self.qualifier
 
     def has_layer_qualifier(self, qualifier: str) -> bool:
         """Check if the expression used a given qualifier for the Layer Type
@@ -631,7 +631,7 @@ class Expression(QueryNode):
         Returns:
             bool: ``True`` if no regex flags where set, ``False`` otherwise
         """
-        return bool(self.regex_flags)
+        return not self.regex_flags
 
     def has_regex_flag(self, flag: RegexFlag) -> bool:
         """Check if a regex flag is set.
-- 
2.43.0


From 7b6afa2f3361e235a13b4983a3170c1850bf5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 3/9] fix: QueryVisitor never dispatched to the handlers of
 wildcard, group, not, and, or expressions

---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 7205d54..c5b581f 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -164,7 +164,10 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
         # search for specific visit function based on node_type
         method_name = f"visit_{node.node_type}"
-        method = getattr(self, method_name, self.visitChildren)
+        method = getattr(self, method_name, None)
+        if method is None:
+            # handlers of expression nodes carry the name of the node class
+            method = getattr(self, f"visit_{type(node).__name__}", self.visitChildren)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
             LOGGER.debug("visiting '%s()': %s", method.__name__, node)
-- 
2.43.0


From 2352dde1614438506abe37012c762388f585dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 4/9] fix: QueryGroup nodes had the node type of a segment

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index c5b581f..9ed22e5 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -872,7 +872,7 @@ class QueryGroup(QueryNode):
             min_occurs: the minimum occurrence
             max_occurs: the maximum occurrence
         """
-        super().__init__(QueryNodeType.QUERY_SEGMENT, child=child)
+        super().__init__(QueryNodeType.QUERY_GROUP, child=child)
 
         self.min_occurs = min_occurs
         """The minimum occurrence of group content."""
-- 
2.43.0


From ab1c09dd5d6d99eda02b54f855d7808ae709a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 5/9] fix: Validator kept stale parent nodes after a raised
 violation

---
 src/fcsql/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 155bcec..4adc64d 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -110,6 +110,9 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         self.errors = []
         self.warnings = []
 
+        # drop leftovers of an earlier run that was aborted by a violation
+        self.stack.clear()
+
         # start validation
         self.visit(node)
 
-- 
2.43.0


From 9b034ce0ad255cb860554fe611c385f819cb2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 6/9] fix: antlr_parse silently skipped text that is no token

---
 src/fcsql/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index d3a5955..c807fd6 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -48,6 +48,7 @@ def antlr_parse(input: str) -> FCSParser.QueryContext:
     lexer = FCSLexer(input_stream)
     stream = CommonTokenStream(lexer)
     parser = FCSParser(stream)
+    lexer.addErrorListener(ExceptionThrowingErrorListener())
     parser.addErrorListener(ExceptionThrowingErrorListener())
     tree: FCSParser.QueryContext = parser.query()
     return tree
-- 
2.43.0


From 48547b5caf3e785de86b020406efc00f810bc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 7/9] fix: escaped closing braces and brackets were refused

---
 src/fcsql/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 9ed22e5..2b7ba66 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1623,8 +1623,12 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                     chars.append("\\)")
                 elif cp == "{":  # regex: opening curly brace
                     chars.append("\\{")
+                elif cp == "}":  # regex: closing curly brace
+                    chars.append("\\}")
                 elif cp == "[":  # regex: opening square bracket
                     chars.append("\\[")
+                elif cp == "]":  # regex: closing square bracket
+                    chars.append("\\]")
                 elif cp == "|":  # regex: vertical bar
                     chars.append("\\|")
                 elif cp == "x":  # x HEX HEX
-- 
2.43.0


From b4396c21c0d6b5fffd7c2f552d86e01e75c3011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 8/9] fix: position of unrecognised text was relative to its
 line

---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 2b7ba66..28dd4b3 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -989,7 +989,8 @@ class ErrorListener(antlr4.error.ErrorListener.ErrorListener):
                 LOGGER.debug(f"{recognizer=}")
 
         if pos is None:
-            pos = column
+            # lexer errors: column is relative to the line, position is relative to the query
+            pos = recognizer._tokenStartCharIndex if isinstance(recognizer, FCSLexer) else column
 
         self.errors.append(
             ErrorDetail(
-- 
2.43.0


From 3ddfdb175e87d49982dc1dd8f5b7d4e769e68667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 9/9] fix: huge code points in escapes were reported as an
 unexpected exception

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 28dd4b3..defc199 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1663,7 +1663,7 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                 cp |= ExpressionTreeBuilder.parseHexChar(val[i])
             try:
                 return chr(cp)
-            except ValueError:
+            except (ValueError, OverflowError):
                 raise ExpressionTreeBuilderException(f"invalid codepoint: U+{cp:X}")
 
         else:
-- 
2.43.0

