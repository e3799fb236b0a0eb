From e70cbf4881cdba909a4a3a984b31a871628dccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 01/37] fix: match rules correctly when they consume the final
 whitespace

match_at kept the token index at the last token, so that token could be
consumed twice, and constraints were checked one position too early.
---
 graphtransliterator/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d102b83..f43fc66 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -712,7 +712,9 @@ class GraphTransliterator:
             children = None
             ordered_children = graph_node[node_key].get("ordered_children")
             if ordered_children:
-                children = ordered_children.get(tokens[token_i])
+                # There is no token past the end, but rules may end there
+                if token_i < len(tokens):
+                    children = ordered_children.get(tokens[token_i])
                 if children:
                     # reordered high to low for stack:
                     for child_key in reversed(children):
@@ -745,9 +747,7 @@ class GraphTransliterator:
                 else:
                     return curr_node["rule_key"]
             else:
-                if token_i < len(tokens) - 1:
-                    token_i += 1
-                _append_children(node_key, token_i)
+                _append_children(node_key, token_i + 1)
         if match_all:
             return matches
 
-- 
2.43.0


From 0cabe6e1b9c487e2f6ffc7f56718c0ee93c44ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 02/37] fix: match_at always returns a least costly matching
 rule

The depth-first search returned the first rule it reached, which may be more
costly than a rule in a later branch. Keep searching branches that could
contain a less costly rule.
---
 graphtransliterator/core.py   | 13 +++++++++++--
 graphtransliterator/graphs.py |  8 ++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index f43fc66..012147c 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -730,9 +730,17 @@ class GraphTransliterator:
 
         _append_children(0, token_i)  # Append all children of root node
 
+        best_key = None
+        best_cost = None
+
         while stack:  # LIFO
             node_key, parent_key, token_i = stack.popleft()
 
+            # After a match, only a less costly branch could lead to a better one
+            if best_key is not None:
+                if graph.edge_cost(parent_key, node_key) >= best_cost:
+                    continue
+
             curr_node = graph_node[node_key]
             # Constraints are only on preceding edge if it is accepting
             # But edge is accessed regardless to test coverage
@@ -743,13 +751,14 @@ class GraphTransliterator:
             ):
                 if match_all:
                     matches.append(curr_node["rule_key"])
-                    continue
                 else:
-                    return curr_node["rule_key"]
+                    best_key = curr_node["rule_key"]
+                    best_cost = self.rules[best_key].cost
             else:
                 _append_children(node_key, token_i + 1)
         if match_all:
             return matches
+        return best_key
 
     def pruned_of(self, productions):
         """
diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 53e0490..82aa0ce 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -158,6 +158,10 @@ class DirectedGraph:
         self.node.append(node_data)
         return node_key, self.node[node_key]
 
+    def edge_cost(self, head, tail):
+        """Return cost of an edge, or 0 if it has none."""
+        return self.edge[head][tail].get("cost", 0)
+
 
 class VisitLoggingList(UserList):
     """Visit logging list."""
@@ -210,6 +214,10 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         super().__init__(edge=graph.edge, node=graph.node, edge_list=graph.edge_list)
         self._add_visit_logging()
 
+    def edge_cost(self, head, tail):
+        """Return cost of an edge, or 0 if it has none, without logging a visit."""
+        return self.edge.data[head].data[tail].get("cost", 0)
+
     def clear_visited(self):
         """Clear all visited attributes on nodes and edges."""
         self.node.visited.clear()
-- 
2.43.0


From 8f621555de7104b756d81bd8ee1ba8627e642052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 03/37] fix: check all pairs of equally costly rules for
 ambiguity

Pairs following one that does not intersect were skipped.
---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 7e5a102..b9dd0e7 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -114,7 +114,7 @@ def check_for_ambiguity(transliterator):
                 j_index = group[j][0]
                 intersection = full_intersection(i_index, j_index)
                 if not intersection:
-                    break
+                    continue
 
                 # Check if a less costly rule matches intersection
 
-- 
2.43.0


From 6c274ae65e80ca73ae1048ccaa669797ecd4e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 04/37] fix: only less costly rules resolve an ambiguity

An equally costly third rule covering the intersection is itself ambiguous.
---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index b9dd0e7..cd9e408 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -122,7 +122,7 @@ def check_for_ambiguity(transliterator):
                     for r_i, rule in enumerate(rules):
                         if r_i in (i_index, j_index):
                             continue
-                        if rule.cost > rules[i_index].cost:
+                        if rule.cost >= rules[i_index].cost:
                             continue
                         rule_tokens = matrix[r_i]
                         if covered_by(intersection, rule_tokens):
-- 
2.43.0


From 49242000a1ee0c4b31d9a6a0247c7944715b2dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 05/37] fix: group rules by cost for ambiguity check even if
 not in order

Rules passed to load() or the constructor need not be sorted by cost.
---
 graphtransliterator/ambiguity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index cd9e408..1c7bf2e 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -103,7 +103,8 @@ def check_for_ambiguity(transliterator):
     # not, there is ambiguity.
 
     for _group_val, group_iter in itertools.groupby(
-        enumerate(transliterator._rules), key=lambda x: x[1].cost
+        sorted(enumerate(transliterator._rules), key=lambda x: x[1].cost),
+        key=lambda x: x[1].cost,
     ):
         group = list(group_iter)
         if len(group) == 1:
-- 
2.43.0


From 4815d3d0cfe2dfadab80b563b6e26f225e8d8a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 06/37] fix: ambiguity is not resolved by a rule reaching
 beyond the input

A rule whose context covers all tokens at a position does not match where
there is no token, before the initial or after the final whitespace.
---
 graphtransliterator/ambiguity.py | 20 ++++++++++++++++----
 graphtransliterator/core.py      |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 1c7bf2e..6cddec7 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -67,16 +67,18 @@ def check_for_ambiguity(transliterator):
     # any previous tokens/classes + max of current/next tokens/classes.
     # Each rule's specifications starting from the max of the previous
     # tokens/classes. Other positions are filled by the set of all possible
-    # tokens.
+    # tokens, and None as there may be no token there.
 
     matrix = []
+    any_or_none = all_tokens | {None}
+    default_whitespace = transliterator._whitespace.default
 
     width = global_max_prev + global_max_curr_next
 
     for i, rule in enumerate(rules):
-        row = [all_tokens] * (global_max_prev - max_prev[i])
+        row = [any_or_none] * (global_max_prev - max_prev[i])
         row += _tokens_possible(rule, transliterator._tokens_by_class)
-        row += [all_tokens] * (width - len(row))
+        row += [any_or_none] * (width - len(row))
         matrix += [row]
 
     def full_intersection(i, j):
@@ -88,6 +90,16 @@ def check_for_ambiguity(transliterator):
             if not intersection:
                 return None
             intersections += [intersection]
+        # There is always a token before the first token of a rule, and beyond any
+        # token that is not the default whitespace, which starts and ends the input.
+        for k in range(global_max_prev - 1, -1, -1):
+            if k == global_max_prev - 1 or not intersections[k + 1].intersection(
+                (None, default_whitespace)
+            ):
+                intersections[k] = intersections[k] - {None}
+        for k in range(global_max_prev + 1, width):
+            if not intersections[k - 1].intersection((None, default_whitespace)):
+                intersections[k] = intersections[k] - {None}
         return intersections
 
     def covered_by(intersection, row):
@@ -135,7 +147,7 @@ def check_for_ambiguity(transliterator):
                         "The pattern {} can be matched by both:\n"
                         "  {}\n"
                         "  {}\n".format(
-                            intersection,
+                            [_ - {None} for _ in intersection],
                             _easyreading_rule(rules[i_index]),
                             _easyreading_rule(rules[j_index]),
                         )
diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 012147c..467093e 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -214,10 +214,10 @@ class GraphTransliterator:
         self._tokens = tokens
         self._rules = rules
         self._tokens_by_class = tokens_by_class or _tokens_by_class_of(tokens)
+        self._whitespace = whitespace
         self._check_ambiguity = check_ambiguity
         if check_ambiguity:
             check_for_ambiguity(self)
-        self._whitespace = whitespace
 
         if onmatch_rules:
             self._onmatch_rules = onmatch_rules
-- 
2.43.0


From f8d46534d440b12ec4e2431a3a8d2868c58d7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 07/37] fix: from_dict accepts settings without optional
 onmatch_rules

---
 graphtransliterator/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index c988882..4bf83bf 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -145,7 +145,7 @@ class SettingsSchema(Schema):
 
         # Validate onmatch_rules and rules
         for rule_type in ("onmatch_rules", "rules"):
-            for rule in data[rule_type]:
+            for rule in data.get(rule_type) or []:
                 for property in ("prev_classes", "next_classes"):
                     values = getattr(rule, property)
                     if not values:
-- 
2.43.0


From 30550b12d01a8d81c842dfed223677ea878ae31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 08/37] fix: pruned_of with a string prunes that production,
 not its substrings

---
 graphtransliterator/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 467093e..1c1ec84 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -807,6 +807,8 @@ class GraphTransliterator:
           gt.pruned_of(['<A>', '<AA>']).rules
 
         """  # noqa
+        if isinstance(productions, str):
+            productions = [productions]
         pruned_rules = [_ for _ in self._rules if _.production not in productions]
         return GraphTransliterator(
             self._tokens,
-- 
2.43.0


From aab459245800183a56080206c912b3e4022d0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 09/37] fix: load dumps of transliterators without metadata

---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 1c1ec84..1ec7a37 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -62,7 +62,7 @@ class GraphTransliteratorSchema(Schema):
         OnMatchRuleSchema, many=True, required=False, allow_none=True
     )
     metadata = fields.Dict(
-        keys=fields.Str(), required=False  # No restriction on values
+        keys=fields.Str(), required=False, allow_none=True  # Values not restricted
     )
     ignore_errors = fields.Bool(required=False)
     onmatch_rules_lookup = fields.Dict(required=False, allow_none=True)
-- 
2.43.0


From 96b40d07c1fcf720d9d800bfa5a28bded25695d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 10/37] fix: load and loads honour ignore_errors and
 check_ambiguity

Both were dropped for compressed settings, and check_ambiguity always was.
---
 graphtransliterator/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 1ec7a37..94ae7e1 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -90,8 +90,12 @@ class GraphTransliteratorSchema(Schema):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
+            # keep other settings, such as those passed to load() and loads()
+            other_settings = {
+                k: v for k, v in data.items() if k != "compressed_settings"
+            }
             data = decompress_config(compressed_settings)
-            data.update(graphtransliterator_version=version)
+            data.update(other_settings)
         return data
 
     @post_load
@@ -101,7 +105,7 @@ class GraphTransliteratorSchema(Schema):
             if data.get(key):  # tokens_by_class can be generated
                 data[key] = {k: set(v) for k, v in data[key].items()}
         # Do not check ambiguity by default if deserializing
-        data["check_ambiguity"] = kwargs.get("check_ambiguity", False)
+        data["check_ambiguity"] = data.get("check_ambiguity", False)
         return GraphTransliterator(**data)
 
     @validates_schema
-- 
2.43.0


From 55fc70fc7e0d64aa6151ed20fb0246cd588587d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 11/37] fix: keep ignore_errors when dumping with compression

---
 graphtransliterator/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 94ae7e1..0069ec3 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -574,13 +574,16 @@ class GraphTransliterator:
             raise ValueError(
                 f"Compression level must be between 0 and {HIGHEST_COMPRESSION_LEVEL}"
             )
-        return {
+        config = {
             "graphtransliterator_version": __version__,
             "compressed_settings": compress_config(
                 GraphTransliteratorSchema().dump(self),
                 compression_level=compression_level,
             ),
         }
+        if self.ignore_errors:
+            config["ignore_errors"] = True
+        return config
 
     def dumps(self, compression_level=2):
         """
-- 
2.43.0


From ffca1e216dcabe79f94e28036d2218959024ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 12/37] fix: compare versions by number, not as strings

---
 graphtransliterator/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 0069ec3..17f472b 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -50,6 +50,11 @@ DEFAULT_COMPRESSION_LEVEL = 2
 HIGHEST_COMPRESSION_LEVEL = 2
 
 
+def _version_key(version):
+    """Key to compare versions by their numbers, e.g. 1.10.0 is later than 1.9."""
+    return tuple(int(_) for _ in re.findall("[0-9]+", re.sub(r"(\.0+)+$", "", version)))
+
+
 class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
@@ -86,7 +91,7 @@ class GraphTransliteratorSchema(Schema):
     def check_version_and_compression(self, data, **kwargs):
         """Raises error if serialized GraphTransliterator is from a later version."""
         version = data.get("graphtransliterator_version")
-        if version and version > __version__:
+        if version and _version_key(version) > _version_key(__version__):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-- 
2.43.0


From 7032cc8c41ed5482c28d2dab423e59c7d90d5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 13/37] fix: unescape Unicode character names containing digits

---
 graphtransliterator/initialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index f10db33..ead4122 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -261,8 +261,8 @@ def _unescape_charnames(input_str):
     def get_unicode_char(matchobj):
         """Get Unicode character value from escaped character sequences."""
         charname = matchobj.group(0)
-        match = re.match(r"\\N{([-A-Z ]+)}", charname)
+        match = re.match(r"\\N{([-A-Z0-9 ]+)}", charname)
         char = unicodedata.lookup(match.group(1))  # KeyError if invalid
         return char
 
-    return re.sub(r"\\N{[-A-Z ]+}", get_unicode_char, input_str)
+    return re.sub(r"\\N{[-A-Z0-9 ]+}", get_unicode_char, input_str)
-- 
2.43.0


From b4549dc7ca9a9ff7afa24378af03ea19ae999fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 14/37] fix: consolidate consecutive whitespace to the default
 whitespace token

The first whitespace token of the run was kept instead.
---
 graphtransliterator/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 17f472b..da0d5dc 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -885,6 +885,7 @@ class GraphTransliterator:
                 # matched_at = match.span(0)[0]
                 if is_whitespace(token):
                     if prev_whitespace and self.whitespace.consolidate:
+                        tokens[-1] = self.whitespace.default
                         continue
                     else:
                         prev_whitespace = True
-- 
2.43.0


From 596dc4586ba8ca554f5daadb63fb20ed46dd95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 15/37] fix: -nie turns off ignoring errors instead of turning
 it on

---
 graphtransliterator/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index b91ec99..7cd367b 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -69,8 +69,7 @@ def load_transliterator(source, **kwargs):
 )
 @click.option(
     "--ignore-errors/--no-ignore-errors",
-    "-ie",
-    "-nie",
+    "-ie/-nie",
     help="Ignore errors.",
     show_default=True,
     default=False,
-- 
2.43.0


From ee27cc56c9e35dfc2006f3f17a1c2d3d63bcc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 16/37] fix: generate tests of on-match rules from both of
 their sides

---
 graphtransliterator/transliterators/bundled.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index 6ce327e..dbf315f 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -187,7 +187,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                 for _ in rule.prev_classes:
                     token = sample_token(_)
                     input_ += token
-                for _ in rule.prev_classes:
+                for _ in rule.next_classes:
                     token = sample_token(_)
                     input_ += token
                 tests[input_] = self.transliterate(input_)
-- 
2.43.0


From d553123d46df65d3983762489ca5366834c56300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 17/37] fix: do not ignore parts of easy-reading rules

In rules such as 'a <class> b', 'a <class1> b <class2>' or 'a (b <class> c)'
some tokens were silently dropped; so was a final newline token.
---
 graphtransliterator/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index c82c546..fc985c2 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -38,14 +38,14 @@ def _process_easyreading_settings(settings):
 # added \n and \r explicitly as validator does not accept re.DOTALL
 
 RULE_RE = re.compile(
-    r"(?:\(((?:\s?<.+?>\s+)+)?(.+?)\s?\) |((?:\s?<.+?>\s+)+)?)?"
+    r"(?:\(((?:\s?<[^>\n]+>\s+)+)?(.+?)\s?\) |((?:\s?<[^>\n]+>\s+)+)?)?"
     r"((?:\n|\r|.)+?)"
     r"(?:"
-    r"\s+(?:\((.+?)((?:\s+<.+?>?)?)\)$)"
+    r"\s+(?:\((.+?)((?:\s+<[^>\n]+>)*)\)\Z)"
     r"|"
-    r"((?:\s+<.+?>)+)"
+    r"((?:\s+<[^>\n]+>)+)\Z"
     r"|"
-    r"$)"
+    r"\Z)"
 )
 
 
-- 
2.43.0


From b5c5493c3539a3bbdaa9ab8b390601ee11278ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 18/37] fix: do not ignore classes of easy-reading on-match
 rules

Following classes containing whitespace were accepted, then dropped.
---
 graphtransliterator/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index fc985c2..6be4e1b 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -87,7 +87,7 @@ def _process_rules(easyreading_rules):
 
 
 ONMATCH_RE = re.compile(
-    r"^(" r"(?:<[^+< \s]+>\s*)+" r")" r"\+" r"(" r"(?:\s*<[^+<]+>)+)\s*$"
+    r"^(" r"(?:<[^+< \s]+>\s*)+" r")" r"\+" r"(" r"(?:\s*<[^+< \s]+>)+)\s*$"
 )
 
 ONMATCH_CLASS_RE = re.compile(r"(?<=<)[^+< \s]+(?=>)")
-- 
2.43.0


From 0bb49d767262750556acd7f037014aea32772b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 19/37] fix: reject empty tokens, rules without tokens,
 incomplete on-match rules

Empty tokens made transliteration loop forever; incomplete on-match rules
raised IndexError or KeyError instead of ValidationError.
---
 graphtransliterator/schemas.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 4bf83bf..fb5fd09 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -66,7 +66,9 @@ class TransliterationRuleSchema(Schema):
     """Schema for :class:`TransliterationRule`."""
 
     production = fields.Str(required=True)
-    tokens = fields.List(fields.Str(), required=True)
+    tokens = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
     prev_classes = fields.List(fields.Str(), allow_none=True)
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
@@ -98,9 +100,13 @@ class TransliterationRuleSchema(Schema):
 class OnMatchRuleSchema(Schema):
     """Schema for :class:`OnMatchRule`."""
 
-    prev_classes = fields.List(fields.Str())
-    next_classes = fields.List(fields.Str())
-    production = fields.Str()
+    prev_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    next_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    production = fields.Str(required=True)
 
     class Meta:
         fields = ("prev_classes", "next_classes", "production")
@@ -118,7 +124,9 @@ class SettingsSchema(Schema):
     """
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Nested(TransliterationRuleSchema, many=True, required=True)
     whitespace = fields.Nested(WhitespaceSettingsSchema, many=False, required=True)
-- 
2.43.0


From ae3cd1729f69970b5f18832743d4e68631f40648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 20/37] fix: raise ValidationError if an on-match rule has
 several values

---
 graphtransliterator/schemas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index fb5fd09..12111f8 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -52,6 +52,7 @@ class EasyReadingSettingsSchema(Schema):
             keys=fields.Str(validate=validate.Regexp(ONMATCH_RE)),
             values=fields.Str(),
             required=False,
+            validate=validate.Length(equal=1),
         )
     )
     metadata = fields.Dict(
-- 
2.43.0


From 5d3be75672decd72dcc8105ed2db1c810b83ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 21/37] fix: iterating over or dumping a graph does not log
 visits

Dumping a CoverageTransliterator marked its whole graph and its on-match
rules as covered.
---
 graphtransliterator/graphs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 82aa0ce..2c29497 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -174,6 +174,9 @@ class VisitLoggingList(UserList):
         self.visited.add(i)
         return self.data[i]
 
+    def __iter__(self):
+        return iter(self.data)  # does not log visits
+
     def clear_visited(self):
         self.visited.clear()
 
@@ -189,6 +192,12 @@ class VisitLoggingDict(UserDict):
         self.visited.add(i)
         return self.data[i]
 
+    def items(self):
+        return self.data.items()  # does not log visits
+
+    def values(self):
+        return self.data.values()  # does not log visits
+
     def clear_visited(self):
         self.visited.clear()
 
-- 
2.43.0


From 1158bc5704bebb72061d6dcb462b28f91f232c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 22/37] fix: do not share visit logging with other
 transliterators

A transliterator pruned of a CoverageTransliterator, or one whose graph was
used to make one, logged its visits there.
---
 graphtransliterator/core.py   | 2 +-
 graphtransliterator/graphs.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index da0d5dc..2134754 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -826,7 +826,7 @@ class GraphTransliterator:
             self._tokens,
             pruned_rules,
             self._whitespace,
-            onmatch_rules=self._onmatch_rules,
+            onmatch_rules=list(self._onmatch_rules or []),
             metadata=self._metadata,
             ignore_errors=self._ignore_errors,
             check_ambiguity=self._check_ambiguity,
diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 2c29497..22ec97c 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -213,10 +213,9 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         # We only care about {TAIL: DATA} for checking coverage.
         # First, convert all {TAIL: {DATA}} to VisitLoggingDict
         # (This avoids settings {HEAD: {...}} to visited
-        for head in self.edge.keys():
-            self.edge[head] = VisitLoggingDict(self.edge[head])
+        edge = {head: VisitLoggingDict(tails) for head, tails in self.edge.items()}
         # Second, convert {HEAD: {...}} to VisitLoggingDict
-        self.edge = VisitLoggingDict(self.edge)
+        self.edge = VisitLoggingDict(edge)
 
     def __init__(self, graph):
         """Initialize from existing graph."""
-- 
2.43.0


From 4780469385d8f0c8bbff0d0cc884bd940a579821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:16 +0000
Subject: [PATCH 23/37] fix: compressed dumps do not depend on the order of
 sets

Class ids of tokens were in the order of a set, which varies between runs.
---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 7b11a81..b3b9dd5 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -169,7 +169,7 @@ def compress_config(config, compression_level=1):
     class_list = tuple(sorted(set().union(*config["tokens"].values())))
     _class_id = {_: i for i, _ in enumerate(class_list)}
     tokens = tuple(
-        tuple(_class_id[_] for _ in config["tokens"][tkn]) for tkn in token_list
+        tuple(sorted(_class_id[_] for _ in config["tokens"][tkn])) for tkn in token_list
     )
     nodetype_list = tuple(sorted(set([_["type"] for _ in config["graph"]["node"]])))
     _nodetype_id = {_: i for i, _ in enumerate(nodetype_list)}
-- 
2.43.0


From 276b1c1579a7c93ff0c5a4be892beea4e03f7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:23 +0000
Subject: [PATCH 24/37] fix: list an edge once in a graph if it is added again

---
 graphtransliterator/graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 22ec97c..6aa05dd 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -110,9 +110,10 @@ class DirectedGraph:
         if head not in self.edge:
             self.edge[head] = {}
 
-        self.edge[head][tail] = edge_data
+        if tail not in self.edge[head]:
+            self.edge_list.append(tuple([head, tail]))
 
-        self.edge_list.append(tuple([head, tail]))
+        self.edge[head][tail] = edge_data
 
         return self.edge[head][tail]
 
-- 
2.43.0


From 260e5b12027f004964cf4cd04a6e7353d3b19d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 25/37] fix: dump a transliterator without rules compressed
 with its graph

---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index b3b9dd5..b2daec3 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -136,7 +136,7 @@ def compress_config(config, compression_level=1):
 
     def compress_node(_node):
         def compressed_ordered_children():
-            x = _node.get("ordered_children")
+            x = _node.get("ordered_children") or {}  # absent if there are no rules
             out = {}
             for k, v in x.items():
                 if k == "__rules__":
-- 
2.43.0


From b515c66a0df0bcc407adc2d6585fcf9fedd8b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:02 +0000
Subject: [PATCH 26/37] fix: read and write files as UTF-8 whatever the locale

---
 graphtransliterator/cli.py                     | 6 +++---
 graphtransliterator/core.py                    | 2 +-
 graphtransliterator/transliterators/bundled.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 7cd367b..165ad06 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -31,7 +31,7 @@ def load_transliterator(source, **kwargs):
     elif format == "json":
         return GraphTransliterator.loads(parameter, **kwargs)
     elif format == "json_file":
-        with open(parameter, "r") as f:
+        with open(parameter, "r", encoding="utf-8") as f:
             return GraphTransliterator.loads(f.read(), **kwargs)
     elif format == "yaml_file":
         return GraphTransliterator.from_yaml_file(parameter, **kwargs)
@@ -138,7 +138,7 @@ def dump_tests(bundled, to):
         transliteration_tests = transliterator.load_yaml_tests()
         click.echo(json.dumps(transliteration_tests))
     elif to == "yaml":
-        with open(transliterator.yaml_tests_filen, "r") as f:
+        with open(transliterator.yaml_tests_filen, "r", encoding="utf-8") as f:
             click.echo(f.read())
 
 
@@ -225,7 +225,7 @@ def make_json(bundled, regex):
         json_filename = os.path.join(
             transliterator.directory, transliterator.name + ".json"
         )
-        with open(json_filename, "w") as f:
+        with open(json_filename, "w", encoding="utf-8") as f:
             f.write(transliterator.dumps())
         click.echo(f"Made JSON of {_}.")
 
diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 2134754..04c6e1e 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -1191,7 +1191,7 @@ class GraphTransliterator:
         from_yaml : Constructor from YAML string in "easy reading" format
         from_easyreading_dict : Constructor from dictionary in "easy reading" format
         """
-        with open(yaml_filename, "r") as f:
+        with open(yaml_filename, "r", encoding="utf-8") as f:
             yaml_string = f.read()
 
         return GraphTransliterator.from_yaml(yaml_string, **kwargs)
diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index dbf315f..ac86cde 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -38,7 +38,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         if method == "yaml":
             gt = GraphTransliterator.from_yaml_file(filename, **kwargs)
         elif method == "json":
-            with open(filename, "r") as f:
+            with open(filename, "r", encoding="utf-8") as f:
                 gt = GraphTransliterator.loads(f.read(), **kwargs)
         # Select coverage superclass, if coverage set.
         if kwargs.get("coverage"):
@@ -120,7 +120,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         `NAME_tests.yaml, e.g. `source_to_target/tests/source_to_target_tests.yaml`.
         """
         test_file = self.yaml_tests_filen
-        with open(test_file, "r") as f:
+        with open(test_file, "r", encoding="utf-8") as f:
             return {str(k): str(i) for k, i in yaml.safe_load(f).items()}
 
     def run_tests(self, transliteration_tests):
-- 
2.43.0


From 41054630cf72aad703cf019abb2650bb0f477d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 27/37] fix: iter_transliterators passes its options on

---
 graphtransliterator/transliterators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index 2bfe9db..a9647a3 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -72,4 +72,4 @@ def iter_names():
 def iter_transliterators(**kwds):
     """Iterate through instances of bundled transliterators."""
     for _ in iter_names():
-        yield (eval(_ + "()"))
+        yield (eval(_ + "(**kwds)"))
-- 
2.43.0


From 50400b660c7d01cb00fbf49ef30b3812e21edef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 28/37] fix: only register subclasses of Bundled as bundled
 transliterators

---
 graphtransliterator/transliterators/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index a9647a3..0ed3543 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -48,6 +48,9 @@ def add_transliterators(path=__path__):
             # Skip any classes starting with _
             if _skip_class_name(name):
                 continue
+            # Skip other classes, e.g. those a module imports
+            if not issubclass(_obj, Bundled):
+                continue
             if name in __all__:
                 raise ValueError(
                     'A transliterator named "{}" already exists'.format(name)
-- 
2.43.0


From f66c9f6968bfa1259bbbb07546051958bb66b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 29/37] fix: make-json takes the name literally unless --regex
 is given

---
 graphtransliterator/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 165ad06..a50de44 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -213,7 +213,7 @@ def make_json(bundled, regex):
     import graphtransliterator.transliterators as transliterators  # pragma: no cover
 
     if not regex:
-        bundled = f"^{bundled}$"
+        bundled = f"^{re.escape(bundled)}$"
     to_dump = [_ for _ in transliterators.iter_names() if re.match(bundled, _)]
     if not to_dump:
         click.echo(f"No bundled transliterator found matching /{bundled}/.")
-- 
2.43.0


From 3f1e466198ce71bb0417ac9cb332aa3ccb8c144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 30/37] fix: refuse a version of the wrong type with a
 validation error

---
 graphtransliterator/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 04c6e1e..d0ab43e 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -91,7 +91,8 @@ class GraphTransliteratorSchema(Schema):
     def check_version_and_compression(self, data, **kwargs):
         """Raises error if serialized GraphTransliterator is from a later version."""
         version = data.get("graphtransliterator_version")
-        if version and _version_key(version) > _version_key(__version__):
+        # a version of the wrong type is left to validation
+        if isinstance(version, str) and _version_key(version) > _version_key(__version__):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-- 
2.43.0


From 63ec384c14058b66bbe8b5e06c6b0cd56e0b13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 31/37] fix: make-json leaves the file alone if the
 transliterator cannot be dumped

---
 graphtransliterator/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index a50de44..fe4914f 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -225,8 +225,9 @@ def make_json(bundled, regex):
         json_filename = os.path.join(
             transliterator.directory, transliterator.name + ".json"
         )
+        json_ = transliterator.dumps()  # before opening, as it may fail
         with open(json_filename, "w", encoding="utf-8") as f:
-            f.write(transliterator.dumps())
+            f.write(json_)
         click.echo(f"Made JSON of {_}.")
 
 
-- 
2.43.0


From 9b6e651880357dc9266a52a194b85bac4a2a4d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 32/37] fix: log ambiguity to the logger of the library, not
 the root logger

---
 graphtransliterator/ambiguity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 6cddec7..88bec6d 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -7,6 +7,8 @@ from .exceptions import AmbiguousTransliterationRulesException
 import itertools
 import logging
 
+logger = logging.getLogger("graphtransliterator")
+
 
 def check_for_ambiguity(transliterator):
     """
@@ -143,7 +145,7 @@ def check_for_ambiguity(transliterator):
                     return False
 
                 if not covered_by_less_costly():
-                    logging.warning(
+                    logger.warning(
                         "The pattern {} can be matched by both:\n"
                         "  {}\n"
                         "  {}\n".format(
-- 
2.43.0


From b8d1438eb399b68327a3a16b2321907a1c02c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 33/37] fix: read malformed rule keys in reasonable time

---
 graphtransliterator/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index 6be4e1b..dc4137a 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -38,7 +38,7 @@ def _process_easyreading_settings(settings):
 # added \n and \r explicitly as validator does not accept re.DOTALL
 
 RULE_RE = re.compile(
-    r"(?:\(((?:\s?<[^>\n]+>\s+)+)?(.+?)\s?\) |((?:\s?<[^>\n]+>\s+)+)?)?"
+    r"(?:\((\s?(?:<[^>\n]+>\s+)+)?(.+?)\s?\) |(\s?(?:<[^>\n]+>\s+)+)?)?"
     r"((?:\n|\r|.)+?)"
     r"(?:"
     r"\s+(?:\((.+?)((?:\s+<[^>\n]+>)*)\)\Z)"
-- 
2.43.0


From 20a797ebc050de6ecb6bed070fd78aef79fb773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 34/37] fix: dump lists of graphs, and leave the edge list of a
 dumped graph as it was

---
 graphtransliterator/schemas.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 12111f8..e87c66b 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -259,8 +259,11 @@ class DirectedGraphSchema(Schema):
         _data = copy.deepcopy(data)
         return DirectedGraph(**_data)
 
-    @pre_dump(pass_many=True)
-    def sort_edge_list(self, data, many, **kwargs):
+    @pre_dump
+    def sort_edge_list(self, data, **kwargs):
         """Sort edge list to make dumps consistent."""
-        data.edge_list = sorted(data.edge_list)
-        return data
+        return {
+            "node": data.node,
+            "edge": data.edge,
+            "edge_list": sorted(data.edge_list),
+        }
-- 
2.43.0


From a5a2e166e612a90d2a6f12acf35a1cfbb74828e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 35/37] fix: log visits of nodes counted from the end, and of
 several at once

---
 graphtransliterator/graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 6aa05dd..b3c607c 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -172,7 +172,8 @@ class VisitLoggingList(UserList):
         self.visited = set()
 
     def __getitem__(self, i):
-        self.visited.add(i)
+        keys = range(len(self.data))[i]  # negative indices count from the end
+        self.visited.update(keys if isinstance(i, slice) else [keys])
         return self.data[i]
 
     def __iter__(self):
-- 
2.43.0


From 1f8e624ef74f0392d2e245d116cb9844a2af93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 36/37] fix: make a tracker of a tracked graph without logging
 visits in it

---
 graphtransliterator/graphs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index b3c607c..7297552 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -215,7 +215,11 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         # We only care about {TAIL: DATA} for checking coverage.
         # First, convert all {TAIL: {DATA}} to VisitLoggingDict
         # (This avoids settings {HEAD: {...}} to visited
-        edge = {head: VisitLoggingDict(tails) for head, tails in self.edge.items()}
+        # Items are taken so that visits are not logged, if the graph logs them itself.
+        edge = {
+            head: VisitLoggingDict(dict(tails.items()))
+            for head, tails in self.edge.items()
+        }
         # Second, convert {HEAD: {...}} to VisitLoggingDict
         self.edge = VisitLoggingDict(edge)
 
-- 
2.43.0


From d50e6246e55935bead275f2cc149ad43780de0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 37/37] fix: write generated tests that contain a next-line
 character so they read back

---
 graphtransliterator/transliterators/bundled.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index ac86cde..4fbf7ce 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -192,4 +192,8 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                     input_ += token
                 tests[input_] = self.transliterate(input_)
 
-        return yaml.dump(dict(tests), allow_unicode=True)
+        tests_yaml = yaml.dump(dict(tests), allow_unicode=True)
+        if "\x85" in tests_yaml:
+            # a next-line character is read back as a space unless it is escaped
+            tests_yaml = yaml.dump(dict(tests))
+        return tests_yaml
-- 
2.43.0

