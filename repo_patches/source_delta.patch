From 414790d884acb07c7cf39b2cf527932babd57eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 01/32] fix: do not mix up distinct rules that reuse an id
 during transformation

RuleTransformator caches results by id(item), temporary items produced by
SquashExtendedTransformator were garbage collected and their ids reused:
rule(A.repeatable().optional(), B.repeatable().optional()) became
R1 R1 with R1 -> e | A R1 | A.
---
 yargy/rule/transformators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..c27809b 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -68,11 +68,12 @@ class RuleTransformator(Visitor):
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-            return self.visited[item_id]
+            _, result = self.visited[item_id]
         else:
-            item = self.resolve_method(item)(item)
-            self.visited[item_id] = item
-            return item
+            result = self.resolve_method(item)(item)
+            # keep item, otherwise id of temporary item may be reused
+            self.visited[item_id] = (item, result)
+        return result
 
     def visit_term(self, item):
         if is_rule(item):
-- 
2.43.0


From 8236bb7e2b6813231bcd898bbc59cfd2896866af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 02/32] fix: allow repeatable rule as a definition of forward

forward().define(rule(...).repeatable()) raised ValueError
'forward(forward(...)) not allowed' on Parser creation, repeatable is
replaced by a forward during normalization.
---
 yargy/rule/transformators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index c27809b..c5abbd7 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -14,6 +14,7 @@ from yargy.dot import (
 from yargy.predicates import is_predicate
 from .constructors import (
     is_rule,
+    is_forward_rule,
     Production,
     EmptyProduction,
     Rule,
@@ -62,9 +63,16 @@ class RuleTransformator(Visitor):
     def __call__(self, root):
         for item in root.walk(types=ForwardRule):
             if item.rule:
-                item.define(self.visit(item.rule))
+                item.define(self.visit_definition(item.rule))
         return self.visit(root)
 
+    def visit_definition(self, item):
+        item = self.visit(item)
+        if is_forward_rule(item):
+            # forward(forward(...)) not allowed
+            item = Rule([Production([item])])
+        return item
+
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-- 
2.43.0


From aadc5544779d59390892ba828a31b8fd5c37ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 03/32] fix: do not modify forward rules on normalization

Normalization redefined forward rules inplace, second parser created
from the same forward failed with RecursionError or lost names,
interpretations and relations.
---
 yargy/rule/bnf.py            | 2 +-
 yargy/rule/transformators.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..af30250 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index c5abbd7..29b667c 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -63,7 +63,7 @@ class RuleTransformator(Visitor):
     def __call__(self, root):
         for item in root.walk(types=ForwardRule):
             if item.rule:
-                item.define(self.visit_definition(item.rule))
+                self.visit(item).define(self.visit_definition(item.rule))
         return self.visit(root)
 
     def visit_definition(self, item):
@@ -142,7 +142,8 @@ class RuleTransformator(Visitor):
         return RelationRule(self.visit(item.rule), item.relation)
 
     def visit_ForwardRule(self, item):
-        return item
+        # copy, the original may be used in other rules and parsers
+        return ForwardRule()
 
     def visit_EmptyRule(self, item):
         return item
-- 
2.43.0


From a91c2b07ca9ac025f50b94e5795c8c078093f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 04/32] fix: do not modify rule on parser creation

Parser(RULE, tokenizer=A) replaced predicates and pipelines of RULE
inplace with ones activated for A, Parser(RULE, tokenizer=B) created
later then used dictionaries prepared by A.
---
 yargy/rule/transformators.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 29b667c..6fd8370 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -30,6 +30,7 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    PipelineRule,
 )
 
 
@@ -108,17 +109,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
@@ -152,7 +153,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -161,11 +162,10 @@ class ActivateTransformator(InplaceRuleTransformator):
         if is_predicate(item):
             return item.activate(self.context)
         else:
-            return item
+            return super(ActivateTransformator, self).visit_term(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From 41116b7ffd8c73fd8c15d0735d1cc371f2b5edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 05/32] fix: do not lose derivations with empty rules

Earley completer only advanced states that were already in the column
when empty rule was completed, for X = rule('a').optional()
rule(X, rule('c').optional(), X, 'b') did not match 'b'.
---
 yargy/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..899c706 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -76,6 +76,7 @@ class Column(object):
         self.states = []
         self.hashes = set()
         self.states_index = defaultdict(list)
+        self.empty_index = defaultdict(list)
 
     def __iter__(self):
         return iter(self.states)
@@ -93,7 +94,10 @@ class Column(object):
             self.update_index(state)
 
     def update_index(self, state):
-        if not state.completed:
+        if state.completed:
+            if state.start_column is self:
+                self.empty_index[id(state.rule)].append(state)
+        else:
             next_term = state.next_term
             if is_rule(next_term):
                 self.states_index[id(next_term)].append(state)
@@ -268,6 +272,9 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        # empty rule may be completed before state is added
+                        for empty in list(column.empty_index[id(next_term)]):
+                            self.complete(column, empty)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
-- 
2.43.0


From e7195e39d3acbab3673b3c627e2b413db8fe38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 06/32] fix: do not hang on rules that derive themselves

rule(A.optional(), B.optional()).repeatable() has infinite number of
derivations for any text, parser never finished building the chart.
---
 yargy/parser.py            |  3 +++
 yargy/tree/constructors.py | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index 899c706..89e05ca 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -352,4 +352,7 @@ class Parser(object):
                 stop_column=column,
                 node=state.node.attached(completed.node)
             )
+            if state.completed and state.node.cyclic:
+                # number of such derivations is infinite
+                continue
             column.append(state)
diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index b1c2f03..c67b420 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -86,6 +86,7 @@ class Node(Record):
         self.production = production
         self.rank = rank
         self.children = children
+        self.size = sum(_.size for _ in children)
 
     def attached(self, node):
         return Node(
@@ -95,6 +96,23 @@ class Node(Record):
             self.children + [node]
         )
 
+    @property
+    def same_size_children(self):
+        return [_ for _ in self.children if _.size == self.size]
+
+    @property
+    def cyclic(self):
+        # rule derives itself on the same tokens
+        queue = self.same_size_children
+        while queue:
+            item = queue.pop()
+            if is_leaf(item):
+                continue
+            if item.rule is self.rule:
+                return True
+            queue.extend(item.same_size_children)
+        return False
+
     @property
     def main(self):
         return self.children[self.production.main].main
@@ -138,6 +156,7 @@ class Leaf(Node):
     __attributes__ = ['predicate', 'token']
 
     children = []
+    size = 1
     interpretator = None
     relation = None
 
-- 
2.43.0


From cc6d96f2208e75fb74462f01149db04a1221f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 07/32] fix: match the whole text with recursive rule

For recursive rule Parser.match returned match for the end of the text,
S -> 'x' S 'y' | 'z' matched 'x z'.
---
 yargy/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 89e05ca..c68e65d 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -281,11 +281,13 @@ class Parser(object):
 
     def matches(self, text, all=True):
         chart = self.chart(text, all=all)
+        if all:
+            return chart.matches(self.rule)
+        # recursive rule may also match a part of the text
         return (
-            chart
-            if all
-            else chart.last_column
-        ).matches(self.rule)
+            _ for _ in chart.last_column.matches(self.rule)
+            if _.start_column.first
+        )
 
     def extract(self, text, all=True):
         states = self.matches(text, all=all)
-- 
2.43.0


From 4068ced0625597f08557cd05d7314ff0397c6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 08/32] fix: do not fail on rules that match empty text

Parser(rule('a').optional()).findall(...) raised ValueError for any text.
---
 yargy/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/parser.py b/yargy/parser.py
index c68e65d..47e3b78 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -205,6 +205,9 @@ def prepare_trees(states):
 
 def prepare_match(tree):
     tree = tree.normalized
+    if not tree.root:
+        # no tokens
+        return
     relations = tree.relations
     if relations.validate():
         tree = tree.constrain(relations)
-- 
2.43.0


From 52133cde19db6d5c72dfc5c98a164efa70bc5026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 09/32] fix: do not leak agreement between matches

Trees share leaves, forms selected by relations for one match replaced
forms in all other matches with the same word, the result depended on
the order in which matches were processed.
---
 yargy/tree/transformators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..e103b63 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -118,12 +118,16 @@ class RelationsTransformator(InplaceTreeTransformator):
             self.relations.add(item.relation, item.main)
 
 
-class ApplyRelationsTransformator(InplaceTreeTransformator):
+class ApplyRelationsTransformator(TreeTransformator):
     def __init__(self, relations):
         self.relations = relations
 
     def visit_Leaf(self, item):
-        item.token = self.relations.constrain(item.token)
+        # copy, leaf is shared with other trees
+        return Leaf(
+            item.predicate,
+            self.relations.constrain(item.token)
+        )
 
 
 class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
-- 
2.43.0


From de6609baaa5d3ba8bf281d2b55ebc18c390fdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 10/32] fix: keep main word when optional words are omitted

Index of main term was applied to the list of children without empty
ones, rule(A.optional(), main(B), C) selected C or raised IndexError.
---
 yargy/tree/constructors.py   |  9 +++++++--
 yargy/tree/transformators.py | 22 +++++++++++++---------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index c67b420..34868ce 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -81,11 +81,16 @@ def dfs_tree(root):
 class Node(Record):
     __attributes__ = ['rule', 'production', 'rank', 'children']
 
-    def __init__(self, rule, production, rank, children):
+    def __init__(self, rule, production, rank, children, main_index=None):
         self.rule = rule
         self.production = production
         self.rank = rank
         self.children = children
+        self.main_index = (
+            production.main
+            if main_index is None
+            else main_index
+        )
         self.size = sum(_.size for _ in children)
 
     def attached(self, node):
@@ -115,7 +120,7 @@ class Node(Record):
 
     @property
     def main(self):
-        return self.children[self.production.main].main
+        return self.children[self.main_index].main
 
     @property
     def interpretator(self):
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index e103b63..2c1f8dd 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -37,7 +37,8 @@ class TreeTransformator(Visitor):
             item.rule,
             item.production,
             item.rank,
-            [self.visit(_) for _ in item.children]
+            [self.visit(_) for _ in item.children],
+            item.main_index
         )
 
     def visit_Leaf(self, item):
@@ -45,20 +46,23 @@ class TreeTransformator(Visitor):
 
 
 class PropogateEmptyTransformator(TreeTransformator):
-    def visit_children(self, item):
-        return list(filter(
-            None,
-            [self.visit(_) for _ in item.children]
-        ))
-
     def visit_Node(self, item):
-        children = self.visit_children(item)
+        children = []
+        main_index = 0
+        for index, child in enumerate(item.children):
+            child = self.visit(child)
+            if child:
+                if index == item.main_index:
+                    main_index = len(children)
+                children.append(child)
+
         if children:
             return Node(
                 item.rule,
                 item.production,
                 item.rank,
-                children
+                children,
+                main_index
             )
 
 
-- 
2.43.0


From 5dae2d8ffe2930ef9ed8404df8eebf6e05a6b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 11/32] fix: filter forms by all relations until nothing
 changes

Filtering forms by one relation may invalidate a relation that is already
checked, so a match used to be accepted with forms that do not agree.
---
 yargy/relations/graph.py | 48 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 7be590c..2202f98 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -47,28 +47,44 @@ class TokenRelationsGraph(RelationsGraph):
                 self.token_forms[token_id].append(form)
 
     def validate(self):
-        for relation, first, second in self.edges:
-            first_id = id(first)
-            second_id = id(second)
-            first_forms = self.token_forms[first_id]
-            second_forms = self.token_forms[second_id]
-            checked_first_forms = []
-            checked_second_forms = []
-            for first_form in first_forms:
-                for second_form in second_forms:
-                    if relation(first_form, second_form):
-                        if first_form not in checked_first_forms:
-                            checked_first_forms.append(first_form)
-                        if second_form not in checked_second_forms:
-                            checked_second_forms.append(second_form)
-            self.token_forms[first_id] = checked_first_forms
-            self.token_forms[second_id] = checked_second_forms
+        # filtering by one edge may invalidate the others, repeat
+        changed = True
+        while changed:
+            size = self.forms_count
+            for edge in self.edges:
+                self.filter_forms(edge)
+            changed = self.forms_count < size
 
         for token_id in self.tokens:
             if not self.token_forms[token_id]:
                 return False
         return True
 
+    @property
+    def forms_count(self):
+        return sum(
+            len(self.token_forms[_])
+            for _ in self.tokens
+        )
+
+    def filter_forms(self, edge):
+        relation, first, second = edge
+        first_id = id(first)
+        second_id = id(second)
+        first_forms = self.token_forms[first_id]
+        second_forms = self.token_forms[second_id]
+        checked_first_forms = []
+        checked_second_forms = []
+        for first_form in first_forms:
+            for second_form in second_forms:
+                if relation(first_form, second_form):
+                    if first_form not in checked_first_forms:
+                        checked_first_forms.append(first_form)
+                    if second_form not in checked_second_forms:
+                        checked_second_forms.append(second_form)
+        self.token_forms[first_id] = checked_first_forms
+        self.token_forms[second_id] = checked_second_forms
+
     def constrain(self, token):
         token_id = id(token)
         if token_id in self.tokens:
-- 
2.43.0


From a108a36805bf69a8a68874ae06264b6e4d3d02b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 12/32] fix: do not fail on agreement with token without
 morphology

Token that is not a russian word has no forms, so it used to raise
AttributeError. It does not agree with any word, reject the match.
---
 yargy/relations/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yargy/relations/graph.py b/yargy/relations/graph.py
index 2202f98..29b6ff7 100644
--- a/yargy/relations/graph.py
+++ b/yargy/relations/graph.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from itertools import combinations
 
 from yargy.record import Record
+from yargy.token import is_morph_token
 
 
 class Edge(Record):
@@ -42,7 +43,8 @@ class TokenRelationsGraph(RelationsGraph):
         super(TokenRelationsGraph, self).add(relation, token)
         token_id = id(token)
         self.tokens[token_id] = token
-        if token_id not in self.token_forms:
+        # no forms for a word without morphology, so nothing to agree on
+        if token_id not in self.token_forms and is_morph_token(token):
             for form in token.forms:
                 self.token_forms[token_id].append(form)
 
-- 
2.43.0


From f961bad23d05541fa078c59b285acea9a00c2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 13/32] fix: do not fail on spans of fact with const attribute

const ignores its input, so the input is not converted to a chain of tokens
and used to have no spans.
---
 yargy/interpretation/interpretator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yargy/interpretation/interpretator.py b/yargy/interpretation/interpretator.py
index bf640eb..3c364c8 100644
--- a/yargy/interpretation/interpretator.py
+++ b/yargy/interpretation/interpretator.py
@@ -30,6 +30,18 @@ class InterpretatorInput(Record):
         self.items = list(items)
         self.key = key
 
+    @property
+    def spans(self):
+        if all(is_token(_) for _ in self.items):
+            yield get_tokens_span(self.items)
+        else:
+            for item in self.items:
+                if is_token(item):
+                    yield item.span
+                else:
+                    for span in item.spans:
+                        yield span
+
 
 class InterpretatorResult(Record):
     normalized = None
-- 
2.43.0


From 0cf106ed0817b9328260027a8ac0c13a9245ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 14/32] fix: keep key of pipeline used under several
 interpretations

Shared pipeline used to be wrapped in one more rule, so normalized() took
normal forms of tokens instead of the key.
---
 yargy/rule/bnf.py          | 6 +++++-
 yargy/rule/constructors.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index af30250..e528835 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -8,7 +8,8 @@ from .transformators import (
 from .constructors import (
     Production,
     Rule,
-    is_forward_rule
+    is_forward_rule,
+    is_pipeline_rule
 )
 
 
@@ -116,6 +117,9 @@ class BNFTransformator(RuleTransformator):
         item = item.rule
         if is_forward_rule(item):
             return lift(self.visit(item))
+        if is_pipeline_rule(item):
+            # not lifted even if shared, otherwise key is lost
+            return self.visit_PipelineRule(item)
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index 6489777..a4c8abc 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -327,3 +327,7 @@ class PipelineRule(Rule):
 
     def __init__(self, pipeline):
         self.pipeline = pipeline
+
+
+def is_pipeline_rule(item):
+    return isinstance(item, PipelineRule)
-- 
2.43.0


From a6afdd88d0939b324842bbc46ac58ed743636bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 15/32] fix: do not move interpretation inside recursive rule
 to the start rule

Start rule that is also used once inside itself was not considered shared,
so name, interpretation and relation of the inner usage were applied to it.
---
 yargy/rule/bnf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index e528835..a8bf8d5 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -93,6 +93,8 @@ class BNFTransformator(RuleTransformator):
         self.parents = {}
 
     def __call__(self, root):
+        # start rule is used by parser
+        self.parents[id(root)] = 1
         for item in root.walk():
             for child in item.children:
                 child_id = id(child)
-- 
2.43.0


From e581335be7ad854b920945e0dfb21cefafb719af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 16/32] fix: predict morph pipeline phrases in the order they
 are listed

Word may have several normal forms, so it may match several phrases. The
phrase to be used as a key depended on order of strings in a set, i.e. on
hash seed.
---
 yargy/pipelines.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..05b684d 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -55,24 +55,24 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def build_index(self, productions):
         index = defaultdict(list)
-        for production in productions:
+        for order, production in enumerate(productions):
             term = production.terms[0]
             for value in term.value:
-                index[value].append(production)
+                index[value].append((order, production))
         return dict(index)
 
     def predict(self, token):
         if is_morph_token(token):
-            normalized = {_.normalized for _ in token.forms}
-            for value in normalized:
-                if value in self.index:
-                    for production in self.index[value]:
-                        yield production
+            values = {_.normalized for _ in token.forms}
         else:
-            value = token.normalized
-            if value in self.index:
-                for production in self.index[value]:
-                    yield production
+            values = {token.normalized}
+
+        # order of productions does not depend on order of values
+        productions = {}
+        for value in values:
+            productions.update(self.index.get(value, []))
+        for order in sorted(productions):
+            yield productions[order]
 
 
 class Key(Record):
-- 
2.43.0


From 8f20cccebb1e26b24e97f593215c27385274959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 17/32] fix: do not lose values of repeatable attribute on
 merge of facts

Values collected by the first fact used to be overwritten by the second.
---
 yargy/interpretation/fact.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yargy/interpretation/fact.py b/yargy/interpretation/fact.py
index b956d6a..361955b 100644
--- a/yargy/interpretation/fact.py
+++ b/yargy/interpretation/fact.py
@@ -94,7 +94,10 @@ class InterpretatorFact(Record):
     def merge(self, fact):
         for key in fact.modified:
             value = fact.attributes[key]
-            self.attributes[key] = value
+            if key in self.repeatable:
+                self.attributes[key].extend(value)
+            else:
+                self.attributes[key] = value
             self.modified.add(key)
 
     @property
-- 
2.43.0


From a093ed3d0780f76f1c9048f2177377e696ab68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 18/32] fix: raise error for unknown tag

Result of the check was ignored, so rule with a misspelled tag silently
matched nothing.
---
 yargy/predicates/bank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index 28ed691..c264ddf 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -416,7 +416,8 @@ class tag(ParameterPredicateScheme):
     """
 
     def activate(self, context):
-        context.tagger.check_tag(self.value)
+        if not context.tagger.check_tag(self.value):
+            raise ValueError(self.value)
         return TagPredicate(self.value)
 
 
-- 
2.43.0


From b8f7611768b8d1cf2c3d539684a3d0c6135cb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 19/32] fix: escape backslash in dot labels

Label that ends with backslash used to escape the closing quote.
---
 yargy/dot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..b011edd 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -35,6 +35,7 @@ class style(Record):
     def quote(self, value):
         value = str(value)
         replace = {
+            '\\': r'\\',
             '"': r'\"',
             '\n': r'\n',
             '\r': r'\r'
-- 
2.43.0


From 6b5f4e16044528e62abb4921780ce689125b6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 20/32] fix: make Span, Token and other records with span
 hashable

---
 yargy/span.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yargy/span.py b/yargy/span.py
index cce713a..f9f2924 100644
--- a/yargy/span.py
+++ b/yargy/span.py
@@ -14,6 +14,9 @@ class Span(Record):
             return tuple(self) == other
         return Record.__eq__(self, other)
 
+    # class with __eq__ is not hashable by default
+    __hash__ = Record.__hash__
+
     def __lt__(self, other):
         return tuple(self) < tuple(other)
 
-- 
2.43.0


From eafdca5c64856294cfbd75a58b112e307f72fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 21/32] fix: list grammemes of inflected() in the same order in
 every process

---
 yargy/interpretation/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..33905f5 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -50,7 +50,7 @@ class InflectedNormalizer(MorphNormalizer):
     @property
     def label(self):
         return 'inflected({grams})'.format(
-            grams=', '.join(self.grams)
+            grams=', '.join(sorted(self.grams))
         )
 
 
-- 
2.43.0


From b64be36d3db6cc0d5701ce8f5227bf15ca93dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 22/32] fix: do not fail on inflected() without grammemes

---
 yargy/interpretation/normalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 33905f5..72772f6 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -35,7 +35,7 @@ class NormalizedNormalizer(MorphNormalizer):
 class InflectedNormalizer(MorphNormalizer):
     __attributes__ = ['grams']
 
-    def __init__(self, grams=None):
+    def __init__(self, grams={'nomn', 'sing'}):
         self.grams = grams
 
     def custom(self, function):
-- 
2.43.0


From 8ac7b42a02ad067a8c6f94280b363eac12326f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 23/32] fix: do not put memory address of function into label
 of custom predicate

---
 yargy/predicates/bank.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index c264ddf..f82a12b 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -488,6 +488,12 @@ class custom(PredicateScheme):
                 context.tokenizer.check_type(type)
         return CustomPredicate(self.function, self.types)
 
+    @property
+    def label(self):
+        return 'custom({name})'.format(
+            name=self.function.__name__
+        )
+
 
 class CustomPredicate(Predicate):
     __attributes__ = ['function', 'types']
-- 
2.43.0


From 7090e4198f597a3fdd5f73a65029c5c484cea796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 24/32] fix: allow reverse for optional predicate

---
 yargy/predicates/constructors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/predicates/constructors.py b/yargy/predicates/constructors.py
index 41b0f91..d544ba1 100644
--- a/yargy/predicates/constructors.py
+++ b/yargy/predicates/constructors.py
@@ -10,9 +10,9 @@ class Predicate(Record):
         # return True of False
         raise NotImplementedError
 
-    def optional(self):
+    def optional(self, reverse=False):
         from yargy.api import rule
-        return rule(self).optional()
+        return rule(self).optional(reverse=reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
         from yargy.api import rule
-- 
2.43.0


From 62a87858f6555e8ea217aa1c77b4a57f1f870557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 25/32] fix: do not fail on text when tokenizer has no rules

---
 yargy/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8c47152..d22f249 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -91,7 +91,7 @@ class Tokenizer(object):
             mapping[name] = type
             types.add(type)
             patterns.append(pattern)
-        pattern = '|'.join(patterns)
+        pattern = '|'.join(patterns) or r'(?!)'
         regexp = re.compile(pattern, re.UNICODE | re.IGNORECASE)
         return regexp, mapping, types
 
-- 
2.43.0


From 0a2d99c614d25e7f47064f05ba02c77fd2aff796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 26/32] fix: allow to add the same tokenizer rule twice

---
 yargy/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index d22f249..7b4eee1 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -81,9 +81,9 @@ class Tokenizer(object):
         types = set()
         mapping = {}
         patterns = []
-        for rule in rules:
+        for index, rule in enumerate(rules):
             type, pattern = rule
-            name = 'rule_{id}'.format(id=id(rule))
+            name = 'rule_{index}'.format(index=index)
             pattern = r'(?P<{name}>{pattern})'.format(
                 name=name,
                 pattern=pattern
-- 
2.43.0


From 7558ae1a00a7bd44b2060ccb82a6ebb611e52596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:11 +0000
Subject: [PATCH 27/32] fix: allow to list grammar with pipelines

---
 yargy/pipelines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 05b684d..8122255 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -154,6 +154,11 @@ class PipelineScheme(Pipeline):
             for _ in self.lines
         )
 
+    @property
+    def as_bnf(self):
+        # lines are split into terms on activation, nothing to list before
+        return self.pipeline([]).as_bnf
+
 
 class CaselessPipelineScheme(PipelineScheme):
     pipeline = CaselessPipeline
-- 
2.43.0


From 4c515dcd3919d6a042117714406496f4453886fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 28/32] fix: do not lose minimum when quantifiers are stacked

---
 yargy/rule/transformators.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 6fd8370..ee3799f 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -168,6 +168,10 @@ class ActivateTransformator(RuleTransformator):
         return PipelineRule(item.pipeline.activate(self.context))
 
 
+def requires_several(item):
+    return isinstance(item, MinBoundedRule) and item.min > 1
+
+
 class SquashExtendedTransformator(RuleTransformator):
     def visit_RepeatableRule(self, item):
         child = item.rule
@@ -184,6 +188,8 @@ class SquashExtendedTransformator(RuleTransformator):
                 child.reverse_optional
             ))
 
+        elif requires_several(child):
+            return RepeatableRule(self.visit(child), item.reverse)
         elif isinstance(child, (RepeatableRule, BoundedRule)):
             return self.visit(RepeatableRule(child.rule, item.reverse))
         else:
@@ -210,8 +216,9 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_RepeatableOptionalRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, BoundedRule,
-                              OptionalRule, RepeatableOptionalRule)):
+        if (not requires_several(child)
+            and isinstance(child, (RepeatableRule, BoundedRule,
+                                   OptionalRule, RepeatableOptionalRule))):
             return self.visit(RepeatableOptionalRule(
                 child.rule,
                 item.reverse_repeatable,
@@ -241,6 +248,13 @@ class SquashExtendedTransformator(RuleTransformator):
         if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
+            if requires_several(item):
+                # some of required items may be omitted
+                return self.visit(RepeatableOptionalRule(
+                    child.rule,
+                    item.reverse,
+                    child.reverse
+                ))
             return self.visit(OptionalRule(
                 MinBoundedRule(
                     child.rule, item.min, item.reverse
@@ -266,9 +280,22 @@ class SquashExtendedTransformator(RuleTransformator):
 
     def visit_MinMaxBoundedRule(self, item):
         child = item.rule
-        if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
+        if isinstance(child, RepeatableRule) and requires_several(item):
+            child = self.visit(child)
+            if isinstance(child, RepeatableOptionalRule):
+                return child
+            return MinBoundedRule(child.rule, item.min, child.reverse)
+        elif isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
             return self.visit_BoundedRule(item)
         elif isinstance(child, OptionalRule):
+            if requires_several(item):
+                # some of required items may be omitted
+                return self.visit(OptionalRule(
+                    MaxBoundedRule(
+                        child.rule, item.max, item.reverse
+                    ),
+                    child.reverse
+                ))
             return self.visit(OptionalRule(
                 MinMaxBoundedRule(
                     child.rule, item.min, item.max, item.reverse
-- 
2.43.0


From eb7c639d15a2e78b83030cb8e159ab103d7f8d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 29/32] fix: reject zero bounds of repeatable

---
 yargy/rule/constructors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/constructors.py b/yargy/rule/constructors.py
index a4c8abc..98547b3 100644
--- a/yargy/rule/constructors.py
+++ b/yargy/rule/constructors.py
@@ -72,11 +72,11 @@ class Rule(Record):
         return OptionalRule(self, reverse)
 
     def repeatable(self, min=None, max=None, reverse=False):
-        if min and max:
+        if min is not None and max is not None:
             return MinMaxBoundedRule(self, min, max, reverse)
-        elif min:
+        elif min is not None:
             return MinBoundedRule(self, min, reverse)
-        elif max:
+        elif max is not None:
             return MaxBoundedRule(self, max, reverse)
         else:
             return RepeatableRule(self, reverse)
-- 
2.43.0


From d42e3516c321bdfd1ab825d733a0f7bc56bdbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:22 +0000
Subject: [PATCH 30/32] fix: recursion error for matches of several hundreds of
 tokens

---
 yargy/tree/constructors.py   | 25 +++++++++++++++----------
 yargy/tree/transformators.py | 32 ++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/yargy/tree/constructors.py b/yargy/tree/constructors.py
index 34868ce..723d7d9 100644
--- a/yargy/tree/constructors.py
+++ b/yargy/tree/constructors.py
@@ -120,7 +120,10 @@ class Node(Record):
 
     @property
     def main(self):
-        return self.children[self.main_index].main
+        item = self
+        while not is_leaf(item):
+            item = item.children[item.main_index]
+        return item.token
 
     @property
     def interpretator(self):
@@ -141,20 +144,22 @@ class Node(Record):
         if id(self) == id(other):
             return False
 
-        if self.rank == other.rank:
+        if self.rank != other.rank:
+            return self.rank < other.rank
+
+        while True:
             for a, b in zip(self.children, other.children):
                 if is_leaf(a):  # b is also leaf
                     continue
                 if id(a) == id(b):
                     continue
-                if a.rank < b.rank:
-                    return True
-                elif a.rank > b.rank:
-                    return False
-                elif a.rank == b.rank:
-                    return a < b
-            return False
-        return self.rank < other.rank
+                if a.rank != b.rank:
+                    return a.rank < b.rank
+                # no recursion since tree for a long text is deep
+                self, other = a, b
+                break
+            else:
+                return False
 
 
 class Leaf(Node):
diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 2c1f8dd..9018126 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -13,7 +13,8 @@ from yargy.interpretation.interpretator import InterpretatorInput
 from .constructors import (
     Tree,
     Node,
-    Leaf
+    Leaf,
+    bfs_tree
 )
 
 
@@ -32,12 +33,22 @@ class TreeTransformator(Visitor):
         root = self.visit(tree.root)
         return Tree(root, tree.range)
 
+    def visit(self, root):
+        # children first, no recursion since tree for a long text is deep
+        self.visited = {}
+        for item in reversed(list(bfs_tree(root))):
+            self.visited[id(item)] = self.resolve_method(item)(item)
+        return self.visited[id(root)]
+
+    def visit_children(self, item):
+        return [self.visited[id(_)] for _ in item.children]
+
     def visit_Node(self, item):
         return Node(
             item.rule,
             item.production,
             item.rank,
-            [self.visit(_) for _ in item.children],
+            self.visit_children(item),
             item.main_index
         )
 
@@ -49,8 +60,7 @@ class PropogateEmptyTransformator(TreeTransformator):
     def visit_Node(self, item):
         children = []
         main_index = 0
-        for index, child in enumerate(item.children):
-            child = self.visit(child)
+        for index, child in enumerate(self.visit_children(item)):
             if child:
                 if index == item.main_index:
                     main_index = len(children)
@@ -73,24 +83,22 @@ class KeepInterpretationNodesTransformator(TreeTransformator):
         return super(KeepInterpretationNodesTransformator, self).__call__(tree)
 
     def flatten(self, item):
-        for child in item.children:
+        queue = list(reversed(item.children))
+        while queue:
+            child = queue.pop()
             if isinstance(child, Leaf) or child.interpretator:
                 yield child
             else:
-                for item in self.flatten(child):
-                    yield item
+                queue.extend(reversed(child.children))
 
     def visit_Node(self, item):
         if item.interpretator:
-            children = [self.visit(_) for _ in self.flatten(item)]
             return Node(
                 item.rule,
                 item.production,
                 item.rank,
-                children
+                [self.visited[id(_)] for _ in self.flatten(item)]
             )
-        else:
-            super(KeepInterpretationNodesTransformator, self).visit_Node(item)
 
 
 class InterpretationTransformator(TreeTransformator):
@@ -98,7 +106,7 @@ class InterpretationTransformator(TreeTransformator):
         return self.visit(tree.root)
 
     def visit_Node(self, item):
-        input = InterpretatorInput(self.visit(_) for _ in item.children)
+        input = InterpretatorInput(self.visit_children(item))
         if isinstance(item.production, PipelineProduction):
             input.key = item.production.value
         return item.interpretator(input)
-- 
2.43.0


From c78f87a558eefb6025d12bddf199d77693543217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:57 +0000
Subject: [PATCH 31/32] fix: number bounds fail on numbers of more than 4300
 digits

---
 yargy/predicates/bank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yargy/predicates/bank.py b/yargy/predicates/bank.py
index f82a12b..9dba30c 100644
--- a/yargy/predicates/bank.py
+++ b/yargy/predicates/bank.py
@@ -1,4 +1,5 @@
 
+from decimal import Decimal
 from functools import wraps
 
 from yargy.tokenizer import INT
@@ -42,7 +43,8 @@ def int_required(method):
     @wraps(method)
     def wrapper(self, token):
         if token.type == INT:
-            value = int(token.value)
+            # int('...') is limited in number of digits
+            value = int(Decimal(token.value))
             return method(self, value)
         else:
             return False
-- 
2.43.0


From e67afc42a73706244e682f230cf2b5af747c90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:38 +0000
Subject: [PATCH 32/32] fix: generated name of a rule repeats a name given by
 user

---
 yargy/rule/bnf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index a8bf8d5..896780c 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -14,9 +14,15 @@ from .constructors import (
 
 
 def generate_names(rules):
+    rules = list(rules)
+    # names given by user, should not be repeated
+    names = {_.name for _ in rules}
+    names.update(_.interpretator.label for _ in rules if _.interpretator)
     count = 0
     for rule in rules:
         if not rule.name:
+            while 'R%d' % count in names:
+                count += 1
             rule.name = 'R%d' % count
             count += 1
         yield rule
-- 
2.43.0

