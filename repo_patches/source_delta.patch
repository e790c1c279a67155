From 10741c2484d18768f1099f0a29982e1826596f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 01/76] fix: keep the table two-dimensional when a context has
 no objects

---
 fca/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 51dc172..bda139e 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -242,7 +242,8 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool)
+        self.np_table = np.array(cross_table, dtype=bool).reshape(
+            len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
-- 
2.43.0


From e5357a9445b68a7520eac5b8b315d6426985530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 02/76] fix: keep suffixing repeated names until all are
 distinct

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index bda139e..0dca2d7 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -220,7 +220,7 @@ class Context(object):
                     " columns (=%i) must agree" % (len(attributes),
                         len(cross_table[0])))
         _attributes = attributes[:]
-        if len(set(attributes)) < len(attributes):
+        while len(set(_attributes)) < len(_attributes):
             for att in _attributes:
                 if _attributes.count(att) > 1:
                     indices = [i for i, x in enumerate(_attributes) if x == att]
@@ -230,7 +230,7 @@ class Context(object):
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
         _objects = objects[:]
-        if len(set(objects)) < len(objects):
+        while len(set(_objects)) < len(_objects):
             for obj in _objects:
                 if _objects.count(obj) > 1:
                     indices = [i for i, x in enumerate(_objects) if x == obj]
-- 
2.43.0


From 9670e928c1f5d31a71c473bfcee3cceeaa389295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:29 +0000
Subject: [PATCH 03/76] fix: put original and complement side by side in the
 compound context

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 0dca2d7..aa0f7f4 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -786,7 +786,7 @@ class Context(object):
         @note: original context remains unchanged
         """
         complementary_cxt = self.complementary() 
-        compound_table = [self.table[i] + complementary_cxt.table[i]
+        compound_table = [self.cross_table[i] + complementary_cxt.cross_table[i]
                           for i in range(len(self.objects))]
         return Context(compound_table,
                        self.objects,
-- 
2.43.0


From 84f1721231ff0fa17b401658670297d1a4190a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 04/76] fix: reduce objects of wide tables, and compare keys
 with keys when reducing

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index aa0f7f4..6eb1fef 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -733,7 +733,7 @@ class Context(object):
         reducible = set()
         M = (1 << len(self.attributes)) - 1              #set of attributes repr
         for i in range(len(keys)):                      #checking if i reducible
-            if i in reducible:
+            if keys[i] in reducible:
                 continue 
             rest = keys[:i] + keys[i+1:]
             current = new = M
@@ -798,7 +798,7 @@ def list2int(lst):
     input lst - list of 1 and 0. Treat as binary number, make it decimal integer
     """
     def foo(x, y):
-        return (x << 1) + y
+        return (x << 1) + int(y)
     return reduce(foo, reversed(lst), 0)
 
 
-- 
2.43.0


From fb5af702a1f4cd2bf02a5c918562172df21d40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 05/76] fix: compute object implications from the current table

---
 fca/context.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 6eb1fef..e926065 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -308,13 +308,10 @@ class Context(object):
     @basis_computation
     def get_object_implications(self, 
                                 basis=fca.algorithms.compute_dg_basis,
-                                confirmed=None):
+                                confirmed=[]):
         cxt = self.transpose()
-        if not self._obj_imp_basis:
-            self._obj_imp_basis = basis(cxt, imp_basis=confirmed)
-        return self._obj_imp_basis
+        return basis(cxt, imp_basis=confirmed)
     
-    _obj_imp_basis = None
     object_implications = property(get_object_implications)
         
     def examples(self):
-- 
2.43.0


From 394707f3f60b46972cd456a6ea44b0e9744841e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 06/76] fix: drop memoized rows and columns also when a basis
 computation fails

---
 fca/context.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index e926065..3d01688 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -96,16 +96,18 @@ def clear_cxt_vars(cxt):
 
 def basis_computation(f):
     def _f(*args, **kwargs):
-        old_obj_intent = args[0].get_object_intent_by_index 
-        old_att_extent = args[0].get_attribute_extent_by_index
-        args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
-        args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        result = f(*args, **kwargs)
-        del args[0].get_attribute_extent_by_index.cache
-        del args[0].get_object_intent_by_index.cache
-        args[0].get_object_intent_by_index = old_obj_intent
-        args[0].get_attribute_extent_by_index = old_att_extent
-        return result
+        cxt_vars = vars(args[0])
+        names = ('get_object_intent_by_index', 'get_attribute_extent_by_index')
+        old = {name: cxt_vars[name] for name in names if name in cxt_vars}
+        try:
+            for name in names:
+                cxt_vars[name] = memo(getattr(args[0], name))
+            return f(*args, **kwargs)
+        finally:
+            # the memo must not outlive the computation, however it ends
+            for name in names:
+                cxt_vars.pop(name, None)
+            cxt_vars.update(old)
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From ae6e6c3641b39095007b49cfa77ac2acba172662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:56 +0000
Subject: [PATCH 07/76] fix: compare contexts by names and incidence, not by
 their printed form

---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 3d01688..467f951 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -672,9 +672,7 @@ class Context(object):
     def __eq__(self, other):
         if type(other) != Context:
             raise TypeError("An input object should be a context!")
-        if self.__repr__() == other.__repr__():
-            return True
-        elif (len(self.objects) != len(other.objects) or
+        if (len(self.objects) != len(other.objects) or
               len(self.attributes) != len(other.attributes)):
             return False
         elif (set(self.objects) != set(other.objects) or
-- 
2.43.0


From d1bbd517e8dfd883af24eb46b940df3d0d82638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:16 +0000
Subject: [PATCH 08/76] fix: keep the values of a many-valued context

---
 fca/context.py   | 5 ++++-
 fca/mvcontext.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 467f951..a3d799a 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -200,6 +200,9 @@ class Context(object):
     1, 3, 4 => 2
     """
 
+    # type of the table cells
+    _cell_type = bool
+
     def __init__(self, cross_table=None, objects=None, attributes=None):
         """Create a context from cross table and list of objects, list
         of attributes
@@ -244,7 +247,7 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool).reshape(
+        self.np_table = np.array(cross_table, dtype=self._cell_type).reshape(
             len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a1d1fd8..a8ce571 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -43,6 +43,8 @@ class ManyValuedContext(Context):
     [1, 2, 3, 1]
     """
 
+    _cell_type = object
+
     def __init__(self, table=[], objects=[], attributes=[]):
         """Create a many valued context from table and list of objects, list
         of attributes
-- 
2.43.0


From e92dd42a4a17d6c848baf6677de8f1c53166e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 09/76] fix: hash concepts by extent and intent only

---
 fca/concept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 6903edb..8c772f9 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -68,7 +68,7 @@ class Concept(object):
                 self.intent == other.intent)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.extent), frozenset(self.intent)))
 
     def pairs(self):
         if not self.extent or not self.intent:
-- 
2.43.0


From ac42db670e7c3fc4b45ff62ea26c2f8b57448655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:14 +0000
Subject: [PATCH 10/76] fix: equal implications have equal hashes

---
 fca/implication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index c9c8135..8bf003b 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -79,7 +79,7 @@ class Implication(object):
             return 0
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.premise), frozenset(self.conclusion)))
             
     def is_respected(self, some_set):
         """Checks whether *some_set* respects an implication or not"""
-- 
2.43.0


From f08eb7e052d1e1a18edba5e4cf4ecd16f5e2723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 11/76] fix: read an empty side of a printed implication as the
 empty set

---
 fca/implication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index 8bf003b..f57037a 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -95,7 +95,7 @@ class Implication(object):
     @classmethod
     def str2imp(cls, string):
         def str2set(str_):
-            return set(map(str.strip, str_.split(',')))
+            return set(filter(None, map(str.strip, str_.split(','))))
         str_premise, str_conclusion = string.split('=>')
         premise = str2set(str_premise)
         conclusion = str2set(str_conclusion)
-- 
2.43.0


From f273add3f80327013df2491543e61ea167070148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 12/76] fix: deep copies of unit and negative implications keep
 their kind

---
 fca/implication.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index f57037a..85248a2 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -33,7 +33,9 @@ class Implication(object):
         self._conclusion = set(conclusion)
         
     def __deepcopy__(self, memo):
-        return Implication(self._premise.copy(), self._conclusion.copy())
+        copied = type(self).__new__(type(self))
+        Implication.__init__(copied, self._premise, self._conclusion)
+        return copied
 
     def get_premise(self):
         """
-- 
2.43.0


From fb2ccac26773ec6a287f0aff02b401e6807b2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 13/76] fix: compare tables cell by cell, also empty ones, so
 partial contexts work

---
 fca/compare_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/compare_context.py b/fca/compare_context.py
index 1d49fdc..c085491 100644
--- a/fca/compare_context.py
+++ b/fca/compare_context.py
@@ -18,9 +18,9 @@ def subseteq_table(table_left, table_right):
                          %(len(table_left[0]), len(table_right[0])))
 
     row_length = len(table_left)
-    table_size = row_length * len(table_left[0])
+    table_size = row_length * len(table_left[0]) if row_length else 0
     for i in range(table_size):
-        a = (i / row_length)
+        a = (i // row_length)
         b = (i % row_length)
         if not (table_left[b][a] <= table_right[b][a]):
             return False
-- 
2.43.0


From 6e5110768d8b23015d6557a57197d7c453c98bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 14/76] fix: filter concepts by number and by part

---
 fca/algorithms/filtering/filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index c36b142..eb03740 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -30,7 +30,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     
     def _filter_abs(lattice, indexes, n):
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:int(n)]
             
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
@@ -38,11 +38,11 @@ def filter_concepts(lattice, function, mode, opt=1):
     def _filter_part(lattice, indexes, part):
         n = int(len(lattice) * part)
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-        eps = values[n-2][1]-values[n-1][1]
+        eps = values[n-2][1]-values[n-1][1] if n > 1 else 0
         
         other_concepts = sorted_indexes[n:]
         for concept in other_concepts:
-- 
2.43.0


From b1934b02c64da30c561788ba8b0cfdd919c3dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 15/76] fix: close correctly under a list with equal
 implications

---
 fca/algorithms/closure_operators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 3d2258f..61b3f9c 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -129,18 +129,20 @@ def lin_closure(s, implications):
             return set()
         count[imp] -= 1
         if count[imp] == 0:
-            return imp._conclusion
+            return implications[imp]._conclusion
         return set()
     
     if not implications:
-        return s
+        return s.copy()
     new_closure = s.copy()
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
                          new_closure)
-    count_ls = [(imp, len(imp.premise)) for imp in implications]
+    # equal implications may occur several times: count them by position
+    count_ls = [(ind, len(imp.premise)) for ind, imp in enumerate(implications)]
     count = dict(count_ls)
-    imps_ls = [(attr, imp) for imp in implications for attr in imp.premise]
+    imps_ls = [(attr, ind) for ind, imp in enumerate(implications)
+               for attr in imp.premise]
     imps = defaultdict(list)
     for n,v in imps_ls:
         imps[n].append(v)
-- 
2.43.0


From 74e6978f17eca4394f53b5cace3416150d9d2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:53 +0000
Subject: [PATCH 16/76] fix: order preclosed sets lectically in the
 attribute-incremental algorithm

---
 fca/algorithms/aibasis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/aibasis.py b/fca/algorithms/aibasis.py
index 1ea2d86..777360e 100644
--- a/fca/algorithms/aibasis.py
+++ b/fca/algorithms/aibasis.py
@@ -4,6 +4,8 @@ Attribute Incremental algorithm for finding the canonical basis.
 @author: Sergei Obiedkov
 """
 
+from functools import cmp_to_key
+
 import fca
 
 from fca.algorithms import closure_operators
@@ -87,7 +89,7 @@ def update_preclosed(i, cxt, preclosed, close):
             basis.append(impl)
             mod_extra.append(non_min_mod[j])
         
-    mod_extra.sort(key=lambda x: x[1])
+    mod_extra.sort(key=cmp_to_key(compare_tuples))
     
     return new_preclosed + mod_extra, basis
 
-- 
2.43.0


From a9bbebbb1e6dc4eea5d1df448ea61d0a4be96e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 17/76] fix: delete examples and attributes of an exploration

---
 fca/algorithms/exploration_/exploration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 70dda74..526511d 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -84,7 +84,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_example(self, name):
-        self._cxt.delete_object_by_name(name)
+        self._cxt.delete_object(name)
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
@@ -106,7 +106,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
-        self._cxt.delete_attribute_by_name(name)
+        self._cxt.delete_attribute(name)
 
     @context_modifier
     def touch(self):
-- 
2.43.0


From 4a06c6d51a951f476b4e6c8ae88bed50144f84ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 18/76] fix: refuse a taken name before editing an example

---
 fca/algorithms/exploration_/exploration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 526511d..4c6a700 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -89,14 +89,13 @@ class ExplorationDB(object):
     @context_modifier
     def edit_example(self, name, old_name, intent):
         old_intent = self._cxt.get_object_intent(old_name)
+        if old_name != name and name in self._cxt.objects:
+            raise NotUniqueObjectName()
         if intent != old_intent:
             self._check_intents([intent])
             self._cxt.set_object_intent(intent, old_name)
         if old_name != name:
-            if name in self._cxt.objects:
-                raise NotUniqueObjectName()
-            else:
-                self._cxt.rename_object(old_name, name)
+            self._cxt.rename_object(old_name, name)
         
     @context_modifier
     def add_attribute(self, name, extent):
-- 
2.43.0


From f115d03dc234c91f3001fbf00f6dc2557bd8d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 19/76] fix: check the edited intents and the new name when
 editing an attribute

---
 fca/algorithms/exploration_/exploration.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 4c6a700..c04bb6d 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -116,18 +116,13 @@ class ExplorationDB(object):
         intents = []
         for obj in self._cxt.objects:
             if obj in extent:
-                intents.append(self._cxt.get_object_intent(obj).add(old_name))
+                intents.append(self._cxt.get_object_intent(obj) | {old_name})
             else:
-                intents.append(self._cxt.get_object_intent(obj).discard(old_name))
+                intents.append(self._cxt.get_object_intent(obj) - {old_name})
         self._check_intents(intents)
 
-        first = False
-        for attribute in self._cxt.attributes:
-            if name == attribute:
-                if first:
-                    raise NotUniqueAttributeName()
-                else:
-                    first = True
+        if old_name != name and name in self._cxt.attributes:
+            raise NotUniqueAttributeName()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
             
-- 
2.43.0


From 432332b5b6476c18dd4d9764500c7a80ba173012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 20/76] fix: an edited object or attribute must respect
 confirmed implications of both kinds

---
 fca/algorithms/exploration.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index fc0ae0f..4dba84a 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -206,16 +206,26 @@ class BasicExploration(object):
     def edit_attribute(self, new_extent, name):
         if not self.check_extent_for_conflicts(new_extent):
             raise BasisConflict(new_extent)
-        else:
-            self.context.set_attribute_extent(new_extent, name)
-            self.recompute_basis()
+        for obj in self.context.objects:
+            intent = self.context.get_object_intent(obj) - {name}
+            if obj in new_extent:
+                intent.add(name)
+            if not self.check_intent_for_conflicts(intent):
+                raise BasisConflict(intent)
+        self.context.set_attribute_extent(new_extent, name)
+        self.recompute_basis()
             
     def edit_object(self, new_intent, name):
         if not self.check_intent_for_conflicts(new_intent):
             raise BasisConflict(new_intent)
-        else:
-            self.context.set_object_intent(new_intent, name)
-            self.recompute_basis()
+        for att in self.context.attributes:
+            extent = self.context.get_attribute_extent(att) - {name}
+            if att in new_intent:
+                extent.add(name)
+            if not self.check_extent_for_conflicts(extent):
+                raise BasisConflict(extent)
+        self.context.set_object_intent(new_intent, name)
+        self.recompute_basis()
 
 
 if __name__ == "__main__":    
-- 
2.43.0


From 92521dfb61d429033345e87c3d1139f610cd75ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 21/76] fix: quote text values of a nominal scale so that they
 can be evaluated

---
 fca/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/scale.py b/fca/scale.py
index 5d3ace0..b3bd830 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -38,7 +38,7 @@ class NominalScale(Scale):
             try:
                 return float(value)
             except ValueError:
-                return "'" + str(value) + "'"
+                return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
-- 
2.43.0


From a2c0fe14e938f6df5688b750523d2807a1cadf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 22/76] fix: judge patterns by the examples containing them,
 full rows included

---
 fca/algorithms/patterns.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 369fc39..33c9e90 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -88,8 +88,7 @@ class NotANegativePattern(NotAPatternException):
 def iterate_positive_concepts(positive_cxt, negative_cxt):
     reduced_pos_cxt = positive_cxt.reduce_attributes().reduce_objects()
     for cpt in reduced_pos_cxt.concepts:
-        if negative_cxt.aclosure(cpt.intent) == set(
-                negative_cxt.attributes):
+        if not negative_cxt.aprime(cpt.intent):
             yield cpt
 
 
@@ -130,9 +129,9 @@ class BasicPatternExploration:
         return sorted(out, key=lambda x: -x[1])
 
     def confirm_pattern(self, pattern):
-        if self.positive_cxt.aclosure(pattern) == set(self.positive_cxt.attributes):
+        if not self.positive_cxt.aprime(pattern):
             raise NotAPositivePattern(pattern)
-        elif self.negative_cxt.aclosure(pattern) != set(self.negative_cxt.attributes):
+        elif self.negative_cxt.aprime(pattern):
             raise NotANegativePattern(pattern)
         self.confirmed_patterns.append(frozenset(pattern))
         return self
-- 
2.43.0


From 1738d85d74024e319d0236606ab0dc1d4d39c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:40 +0000
Subject: [PATCH 23/76] fix: generate patterns with frequencies by default, as
 the exploration expects

---
 fca/algorithms/patterns.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 33c9e90..a893655 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -92,10 +92,18 @@ def iterate_positive_concepts(positive_cxt, negative_cxt):
             yield cpt
 
 
+def iterate_positive_patterns(positive_cxt, negative_cxt):
+    """
+    Iterate over pairs of a pattern and the number of positive examples of it.
+    """
+    for cpt in iterate_positive_concepts(positive_cxt, negative_cxt):
+        yield cpt.intent, len(positive_cxt.aprime(cpt.intent))
+
+
 class BasicPatternExploration:
 
     def __init__(self, init_positive_cxt, init_negative_cxt,
-                 expert=None, pattern_generator=iterate_positive_concepts):
+                 expert=None, pattern_generator=iterate_positive_patterns):
         """
         :param init_positive_cxt:
         :param init_negative_cxt:
-- 
2.43.0


From 81e65f2cb5973185591f8ac6d2a779b7989ce5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 24/76] fix: a context without crosses has no factors

---
 fca/algorithms/factors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index fa3e54b..a0e1ad8 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -82,6 +82,8 @@ def algorithm2(cxt, fidelity=1):
     """
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
@@ -137,6 +139,8 @@ def algorithm2_weighted(cxt, fidelity=1):
 
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
-- 
2.43.0


From 983fefa5eb0b3e2dbbdee9b01a45ad6ccafc59ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:51 +0000
Subject: [PATCH 25/76] fix: derive objects from attributes in the weighted
 factorisation

---
 fca/algorithms/factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index a0e1ad8..4b43789 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -146,7 +146,7 @@ def algorithm2_weighted(cxt, fidelity=1):
         V = 0
         to_remove = set()
         while True:
-            D_objs = cxt.oprime(D)
+            D_objs = cxt.aprime(D)
             ls_measures = [(score(_oplus(D_objs, j, cxt, U)), j)
                            for j in set(cxt.attributes) - D]
             if ls_measures:
-- 
2.43.0


From 27e08722fc356dd7b67f575dd2ee3bbaaca6e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 26/76] fix: constrained factorisation goes on when a factor
 covers nothing new

---
 fca/algorithms/factors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 4b43789..09223c5 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -239,10 +239,10 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
                 else:
                     to_remove = to_remove_U
             elif good_factor(cpt=fca.Concept(C, D)):
-                if len(to_remove) == 0:
-                    raise Exception(
-                        f'Algorithm stuck, something went wrong, pairs left '
-                        f'{len(U)}')
+                if len(to_remove) == 0:  # nothing new is covered: restart
+                    U = {u for u in U if u[1] not in D}
+                    removed_atts |= D
+                    break
                 U -= to_remove
                 # print(f'Factor out: {len(C)}, {len(D)}')
                 yield fca.Concept(C, D), len(to_remove) / len_initial, (len_initial - len(U)) / len_initial
-- 
2.43.0


From 31e4b4e74a30deae9e250711d8635b0be59d9566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 27/76] fix: constrained factorisation yields the factor that
 uses up the attributes

---
 fca/algorithms/factors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 09223c5..7fbb36f 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -215,10 +215,10 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
             Dprime = cxt.aprime(D)
             ls_measures = [(len(_oplus(Dprime, j, cxt, U)), j)
                            for j in available_atts - D]
-            if not ls_measures:
+            if not ls_measures and not good_factor(cpt=fca.Concept(C, D)):
                 # print(f'Empty ls_measures. len(U) = {len(U)}, {set(u[1] for u in U)}, len(D) = {len(D)}, len(avail_atts) = {len(available_atts)}')
                 return
-            maxDj = max(ls_measures, key=lambda x: x[0])
+            maxDj = max(ls_measures, key=lambda x: x[0], default=(0, None))
             # print(D, Dprime, maxDj, V)
             # print(cxt)
             if maxDj[0] > V or not good_factor(cpt=fca.Concept(C, D)):  # update the values
-- 
2.43.0


From f9ecec6b597038f41c7e7fed1e544f01fdf95cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 28/76] fix: read names of a cxt file as literals or text,
 never evaluate them

---
 fca/readwrite/cxt.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f119e5d..6066cb4 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -1,8 +1,19 @@
 # -*- coding: utf-8 -*-
 """Holds function that read context from tab separated txt file"""
 
+import ast
+
 import fca
 
+def _parse_name(text):
+    """Return the value of a Python literal, any other text as it is"""
+    try:
+        name = ast.literal_eval(text)
+        hash(name)
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
+        return text
+    return name
+
 def read_cxt(path):
     """Read context from path, which is .cxt file
 
@@ -67,20 +78,10 @@ def read_cxt(path):
     # objects = [input_file.readline().strip() for _ in range(number_of_objects)]
     objects = []
     for _ in range(number_of_objects):
-        next_obj_s = input_file.readline().strip()
-        try:
-            next_obj = eval(next_obj_s)
-        except (NameError, SyntaxError):
-            next_obj = next_obj_s
-        objects.append(next_obj)
+        objects.append(_parse_name(input_file.readline().strip()))
     attributes = []
     for _ in range(number_of_attributes):
-        next_att_s = input_file.readline().strip()
-        try:
-            next_att = eval(next_att_s)
-        except (NameError, SyntaxError):
-            next_att = next_att_s
-        attributes.append(next_att)
+        attributes.append(_parse_name(input_file.readline().strip()))
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From faec8ae7eea1c27036e8085ebb4aa2900734fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:57 +0000
Subject: [PATCH 29/76] fix: read and write unicode cxt files as utf-8 text

---
 fca/readwrite/cxt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index 6066cb4..7d5f903 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -116,7 +116,7 @@ def write_cxt(context, path):
     output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
@@ -138,7 +138,7 @@ def uwrite_cxt(context, path):
     output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r")
+    input_file = open(path, "r", encoding="utf-8")
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -146,8 +146,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_objects)]
-    attributes = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_attributes)]
+    objects = [input_file.readline().strip() for i in range(number_of_objects)]
+    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From c2df99f80e667ba129e512581c9f13c5ebbe2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:32 +0000
Subject: [PATCH 30/76] fix: read tab-separated files as text

---
 fca/readwrite/tab_separated.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 456f2a5..5973ce3 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -79,7 +79,7 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -105,7 +105,7 @@ def read_txt(path):
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
 
@@ -144,7 +144,7 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -172,7 +172,7 @@ def read_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -211,19 +211,19 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
     objects = []
     for obj in rec:
-        objects.append(str(obj, "utf-8").strip())
+        objects.append(obj.strip())
     
     rec = next(rdr) # read attributes names
 
     attributes = []
     for attr in rec:
-        attributes.append(str(attr, "utf-8").strip())
+        attributes.append(attr.strip())
     
     next(rdr) # empty line
     
@@ -239,7 +239,7 @@ def uread_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", encoding="utf-8")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
-- 
2.43.0


From 0ce639518afd7a34182fa68628b4513f2a5371dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:46 +0000
Subject: [PATCH 31/76] fix: object names of a tab-separated table are not
 cells, and tables may be empty

---
 fca/readwrite/tab_separated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 5973ce3..09ce693 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -31,7 +31,7 @@ def read_txt_with_names(path):
     for rec in rdr:
         objects.append(rec[0])                  # read objects names
         line = []
-        for num in rec:
+        for num in rec[1:]:
             if num == "0":
                 line.append(False)
             elif num == "1":
@@ -39,7 +39,7 @@ def read_txt_with_names(path):
         table.append(line)
     input_file.close()
 
-    if len(attributes) != len(table[0]):
+    if table and len(attributes) != len(table[0]):
         input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
@@ -104,7 +104,7 @@ def read_txt(path):
 
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
-    if len(attributes) != len(table[0]):
+    if table and len(attributes) != len(table[0]):
         input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
-- 
2.43.0


From b4b9b794ac58ed8d7687360cb9d0e53b3c457716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:02 +0000
Subject: [PATCH 32/76] fix: write tab-separated tables so that they can be
 read back

---
 fca/readwrite/tab_separated.py | 35 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 09ce693..c97ceb8 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -246,34 +246,23 @@ def uread_mv_txt(path):
 
     return fca.ManyValuedContext(table, objects, attributes)
 
-def write_mv_txt(context, path):
-    output_file = open(path, "w")
-
-    output_file.write("\t".join(context.objects))
-    output_file.write("\n")
-
-    output_file.write("\t".join(context.attributes))
-    output_file.write("\n\n")
-
+def _write_mv_txt(context, output_file):
+    # names and values with quotes, and empty ones, need quoting
+    wrt = csv.writer(output_file, delimiter="\t", lineterminator="\n")
+    wrt.writerow(context.objects)
+    wrt.writerow(context.attributes)
+    wrt.writerow([])
     for i in range(len(context.objects)):
-        output_file.write("\t".join([str(spam) for spam in context[i]]))
-        output_file.write("\n")
+        wrt.writerow([str(spam) for spam in context[i]])
 
+def write_mv_txt(context, path):
+    output_file = open(path, "w")
+    _write_mv_txt(context, output_file)
     output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w")
-
-    output_file.write("\t".join(context.objects).encode("utf-8"))
-    output_file.write("\n")
-
-    output_file.write("\t".join(context.attributes).encode("utf-8"))
-    output_file.write("\n\n")
-
-    for i in range(len(context.objects)):
-        output_file.write("\t".join([str(spam) for spam in context[i]]))
-        output_file.write("\n")
-
+    output_file = open(path, "w", encoding="utf-8")
+    _write_mv_txt(context, output_file)
     output_file.close()
 
 
-- 
2.43.0


From 733799c121951e0e726df1f3f693154328c25333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:37 +0000
Subject: [PATCH 33/76] fix: read comma-separated files as text, and zeros as
 missing crosses

---
 fca/readwrite/comma_separated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7867d44..7b232c2 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,7 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", newline="")
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
@@ -65,7 +65,8 @@ def read_csv(path):
     @note: uses *read_mv_csv* add then treats many valued context as binary
     """
     mvcxt = read_mv_csv(path)
-    return fca.Context(mvcxt.table, mvcxt.objects, mvcxt.attributes)
+    table = [[val.strip() == "1" for val in row] for row in mvcxt.table]
+    return fca.Context(table, mvcxt.objects, mvcxt.attributes)
 
 if __name__ == "__main__":
     import doctest
-- 
2.43.0


From 42fd9af475768f0ea0d0551eabc332b06e9fa839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 34/76] fix: write xml as text and parse it from bytes

---
 fca/readwrite/xml_.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 5fefff8..425b04f 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -28,7 +28,7 @@ def write_xml(path, cs):
     objects_ids = dict([(objects[i], "o{0}".format(i+1))  for i in range(len(objects))])
     attributes_ids = dict([(attributes[i], "a{0}".format(i+1))  for i in range(len(attributes))])
 
-    with open(path, "wb") as out:
+    with open(path, "w", encoding="utf-8") as out:
         impl = getDOMImplementation()
 
         newdoc = impl.createDocument(None, "conceptsystem", None)
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj.encode("utf-8"))
+            textnode = newdoc.createTextNode(obj)
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr.encode("utf-8"))
+            textnode = newdoc.createTextNode(attr)
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
@@ -177,8 +177,8 @@ def read_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
     
     return cs
     
@@ -262,8 +262,8 @@ def uread_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
 
     return cs
 
-- 
2.43.0


From cd23fe2f3dbbcb59ab3c42f5bc3b014d3221da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 35/76] fix: keep names read from xml whole when the parser
 delivers them in pieces

---
 fca/readwrite/xml_.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 425b04f..f37e8ad 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -145,12 +145,14 @@ def read_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
+                buffer = buffer.strip()
                 d_objects[new_obj] = buffer
                 objects.append(buffer)
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
+                buffer = buffer.strip()
                 d_attributes[new_attr] = buffer
                 attributes.append(buffer)
                 new_attr = None
@@ -166,9 +168,6 @@ def read_xml(path):
     
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
@@ -230,12 +229,14 @@ def uread_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
+                buffer = buffer.strip()
                 d_objects[new_obj] = buffer
                 objects.append(buffer)
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
+                buffer = buffer.strip()
                 d_attributes[new_attr] = buffer
                 attributes.append(buffer)
                 new_attr = None
@@ -251,9 +252,6 @@ def uread_xml(path):
 
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-- 
2.43.0


From 56748437dd2ad6130813a7549688816db303c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 36/76] fix: add all or none of the counterexamples of a
 rejection

---
 fca/algorithms/exploration_/exploration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index c04bb6d..bbf113c 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -174,6 +174,11 @@ class AttributeExploration(object):
             examples, intents = [examples], [intents]
         if imp.is_respected(intents[0]):
             raise NotCounterexample()
+        # all or none of the examples are added
+        self.db._check_intents(intents)
+        if (len(set(examples)) < len(examples) or
+                set(examples) & set(self.db.objects)):
+            raise NotUniqueObjectName()
         for i in range(len(examples)):
             self.db.add_example(examples[i], intents[i])
         self.db.complete()
-- 
2.43.0


From 61b963ca27cacd8b9422a0f81878eaf3fe06fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:05 +0000
Subject: [PATCH 37/76] fix: read_xml and uread_xml keep their state per call,
 not in module globals

Two reads running in different threads mixed their objects, attributes and
concepts.
---
 fca/readwrite/xml_.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index f37e8ad..e1e87a8 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -98,8 +98,6 @@ def read_xml(path):
     (['obj1'], ['attr1', 'attr3'])
     ([], M)
     """
-    global new_obj, new_attr, cs, buffer
-    
     buffer = ""
     
     cs = fca.ConceptSystem()
@@ -118,8 +116,8 @@ def read_xml(path):
     new_meta = {}
     
     def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
+        nonlocal new_obj, new_attr, buffer
+        nonlocal new_extent, new_intent, new_meta
         if name == "object":
             if "id" in list(attrs.keys()):
                 buffer = ""
@@ -141,8 +139,8 @@ def read_xml(path):
             new_meta = {}
         
     def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
+        nonlocal new_intent, new_extent, new_meta
+        nonlocal new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
                 buffer = buffer.strip()
@@ -167,7 +165,7 @@ def read_xml(path):
             new_meta = {}
     
     def char_data(data):
-        global buffer
+        nonlocal buffer
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
@@ -182,8 +180,6 @@ def read_xml(path):
     return cs
     
 def uread_xml(path):
-    global new_obj, new_attr, cs, buffer
-
     buffer = ""
 
     cs = fca.ConceptSystem()
@@ -202,8 +198,8 @@ def uread_xml(path):
     new_meta = {}
 
     def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
+        nonlocal new_obj, new_attr, buffer
+        nonlocal new_extent, new_intent, new_meta
         if name == "object":
             if "id" in list(attrs.keys()):
                 buffer = ""
@@ -225,8 +221,8 @@ def uread_xml(path):
             new_meta = {}
 
     def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
+        nonlocal new_intent, new_extent, new_meta
+        nonlocal new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
                 buffer = buffer.strip()
@@ -251,7 +247,7 @@ def uread_xml(path):
             new_meta = {}
 
     def char_data(data):
-        global buffer
+        nonlocal buffer
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-- 
2.43.0


From d217c1c254e37af2b60fecf2d95fb4d20504aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:01 +0000
Subject: [PATCH 38/76] fix: simultaneous basis computations leave no memo on
 the context

Two computations on one context that overlap in different threads restored
each other's memo for good: queries after later edits got the old rows.
---
 fca/context.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index a3d799a..d13ca93 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -3,6 +3,7 @@
 Holds class for context
 """
 import copy
+import threading
 import logging
 import random
 from collections import Counter
@@ -94,20 +95,35 @@ def clear_cxt_vars(cxt):
         del cxt._pairs
 
 
+_basis_lock = threading.Lock()
+
+
 def basis_computation(f):
     def _f(*args, **kwargs):
         cxt_vars = vars(args[0])
         names = ('get_object_intent_by_index', 'get_attribute_extent_by_index')
-        old = {name: cxt_vars[name] for name in names if name in cxt_vars}
+        # nested and simultaneous computations share the memo of the first one
+        with _basis_lock:
+            count, old = cxt_vars.get('_basis_computations', (0, {}))
+            if not count:
+                old = {name: cxt_vars[name] for name in names
+                       if name in cxt_vars}
+                for name in names:
+                    cxt_vars[name] = memo(getattr(args[0], name))
+            cxt_vars['_basis_computations'] = (count + 1, old)
         try:
-            for name in names:
-                cxt_vars[name] = memo(getattr(args[0], name))
             return f(*args, **kwargs)
         finally:
-            # the memo must not outlive the computation, however it ends
-            for name in names:
-                cxt_vars.pop(name, None)
-            cxt_vars.update(old)
+            # the memo must not outlive the computations, however they end
+            with _basis_lock:
+                count, old = cxt_vars['_basis_computations']
+                if count > 1:
+                    cxt_vars['_basis_computations'] = (count - 1, old)
+                else:
+                    del cxt_vars['_basis_computations']
+                    for name in names:
+                        cxt_vars.pop(name, None)
+                    cxt_vars.update(old)
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From 1c651e25193a58cc104f6b389a12fb395f78785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:32 +0000
Subject: [PATCH 39/76] fix: the memo of a basis computation hands out copies

A set got from the context in a callback or another thread while a basis was
computed, and modified there, was the memo's own and spoiled the basis.
---
 fca/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index d13ca93..50d56fb 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -70,13 +70,14 @@ def memo(f):
     """
     Decorator that caches the return value for each call to f(args).
     Then when called again with same args, we can just look it up.
+    Every caller gets a copy of its own.
     """
     def _f(*args):
         try:
-            return _f.cache[args]
+            return copy.copy(_f.cache[args])
         except KeyError:
             _f.cache[args] = result = f(*args)
-            return result
+            return copy.copy(result)
         except TypeError:
             # some element of args can't be a dict key
             return f(*args)
-- 
2.43.0


From d1b0f2ae93248a60675f4a1d720a2b699385e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 40/76] fix: completing a partial context brings the open
 implications up to date

---
 fca/algorithms/exploration_/exploration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index bbf113c..7c380cc 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -142,6 +142,8 @@ class ExplorationDB(object):
         # TODO: refactor
         if type(self._cxt) == PartialContext:
             self._cxt.complete(self._implications)
+            # completion can refute open implications
+            self.touch()
     
     objects = property(get_object_names)
     attributes = property(get_attribute_names)
-- 
2.43.0


From 35e0895459099c93ba63f67237bd9bd37eea2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 41/76] fix: a completion that fails leaves the partial context
 as it was

---
 fca/partial_context.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index ebe336c..67e3271 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -96,14 +96,14 @@ class PartialContext(object):
         self.objects.append(name)
         
     def complete(self, implications):
+        for xintent, qintent in self.intents():
+            if not closure(xintent, implications) <= qintent:
+                raise ValueError(
+                    'implications are inconsistent with the partial context')
         for o in self.objects:
             xintent = self.x_context.get_object_intent(o)
             new_xintent = closure(xintent, implications)
             qintent = self.q_context.get_object_intent(o)
-            if not new_xintent <= qintent:
-                # TODO: undo the modifications
-                raise ValueError(
-                    'implications are inconsistent with the partial context')
             self.x_context.set_object_intent(new_xintent, o)
             new_qintent = set([a for a in qintent
                                  if a in new_xintent or
-- 
2.43.0


From 31cc523588a27ca27aa03f51d65d9e64719eb4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 42/76] fix: refuse partial examples and implications that
 leave an example no completion

---
 fca/algorithms/exploration_/exploration.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 7c380cc..f49ca61 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -3,6 +3,7 @@
 from copy import copy, deepcopy
 from fca import Context
 from fca.partial_context import PartialContext
+from fca.algorithms.closure_operators import simple_closure as closure
 
 class ExplorationException(Exception):
     pass
@@ -64,6 +65,10 @@ class ExplorationDB(object):
             for imp in self._implications:
                 if not imp.is_respected(intent):
                     raise IllegalContextModification()
+            # a partial example must have a completion
+            if (type(intent) != set and
+                    not closure(intent[0], self._implications) <= intent[1]):
+                raise IllegalContextModification()
 
     @base_modifier
     def confirm_implication(self, imp):
@@ -164,9 +169,15 @@ class AttributeExploration(object):
         
     def confirm_implications(self, imps):
         """docstring for confirm_implication"""
+        imps = list(imps)
         for i in imps:
             self.db.confirm_implication(i)
-        self.db.complete()
+        try:
+            self.db.complete()
+        except ValueError:
+            for i in imps:
+                self.db.unconfirm_implication(i)
+            raise
 
     def reject_implication(self, imp):
         """docstring for reject_implication"""
-- 
2.43.0


From 66ce5c6b4eaed1cde017eee09e6c1adcfeed827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 43/76] fix: nominal scales of values that are no finite
 numbers can be evaluated

---
 fca/scale.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fca/scale.py b/fca/scale.py
index b3bd830..0b1b232 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -36,14 +36,19 @@ class NominalScale(Scale):
         """
         def foo(value):
             try:
-                return float(value)
-            except ValueError:
+                number = float(value)
+            except (ValueError, TypeError, OverflowError):
                 return repr(str(value))
+            return number if number - number == 0 else str(number)
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
                            for i in range(len(mvcontext))]))
-        objects = ["value == {}".format(v) for v in values]
+        # these numbers have no literals
+        special = {"nan": "value != value",
+                   "inf": "value == float('inf')",
+                   "-inf": "value == -float('inf')"}
+        objects = [special.get(v, "value == {}".format(v)) for v in values]
         table = []
         for i in range(len(objects)):
             row = [False] * len(values)
-- 
2.43.0


From 6e3f7b4c49066c44997380f61d8c639e02a8af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 44/76] fix: a deep copy of a many-valued context keeps its
 values

---
 fca/mvcontext.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a8ce571..666ed1e 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import copy
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -83,6 +85,11 @@ class ManyValuedContext(Context):
         
     table = property(get_table)
 
+    def __deepcopy__(self, memo):
+        return ManyValuedContext(copy.deepcopy(self.table, memo),
+                                 self.objects[:],
+                                 self.attributes[:])
+
     def extract_subcontext(self, attribute_names):
         """Create a subcontext with only indicated attributes"""
         return ManyValuedContext(self._extract_subtable(attribute_names),
-- 
2.43.0


From 1c86798887c77b42800a070a103fdfc17c3c0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 45/76] fix: rows and columns added to a many-valued context
 keep their values

---
 fca/context.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 50d56fb..16b458b 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -381,7 +381,7 @@ class Context(object):
     def add_attribute(self, col, attr_name):
         """Add new attribute to context with given name"""
         # not optimised: not expected to be a usual operation
-        new_table = np.c_[self.np_table, col]
+        new_table = np.c_[self.np_table, np.array(col, dtype=self._cell_type)]
         new_attributes = self.attributes + [attr_name]
         self.__init__(new_table, self.objects, new_attributes)
 
@@ -390,10 +390,11 @@ class Context(object):
 
         @note: very slow, not suitable for incrementally creating a context"""
         # not optimised: not expected to be a usual operation
-        if self.table.shape[0] > 0:
-            new_table = np.vstack((self.table, [row]))
+        new_row = np.array([row], dtype=self._cell_type)
+        if self.np_table.shape[0] > 0:
+            new_table = np.vstack((self.np_table, new_row))
         else:
-            new_table = np.array([row])
+            new_table = new_row
         new_objects = self.objects + [obj_name]
         self.__init__(new_table, new_objects, self.attributes)
         
-- 
2.43.0


From e8d743a64e6b83387b76b9ba24c36d933a3f3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 46/76] fix: delete_attributes with a repeated name dropped the
 name of a column that stays

---
 fca/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 16b458b..291995b 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -436,7 +436,8 @@ class Context(object):
         self.__init__(new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
-        att_inds = [self.attribute_indices[name] for name in names]
+        # a name may be given twice
+        att_inds = list({self.attribute_indices[name] for name in names})
         self.np_table = np.delete(self.np_table, att_inds, 1)
         new_table = self.np_table.tolist()
         for att_index in sorted(att_inds, reverse=True):
-- 
2.43.0


From 742a14596f86f0d44346c7edb5aec0ac10ac98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 47/76] fix: a context without table or names could not be made
 though the defaults promise it

---
 fca/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/context.py b/fca/context.py
index 291995b..4eda545 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -234,6 +234,10 @@ class Context(object):
         #         cross_table = [list(i) for i in cross_table]
         #     except:
         #         raise NotTableException(cross_table)
+        # whatever is left out is empty
+        cross_table = [] if cross_table is None else cross_table
+        objects = [] if objects is None else objects
+        attributes = [] if attributes is None else attributes
         if len(cross_table) != len(objects):
             raise ValueError("Number of objects (=%i) and number of cross table"
                    " rows(=%i) must agree" % (len(objects), len(cross_table)))
-- 
2.43.0


From 0cb99737d4706e2140ba41ee1c10c9e43f3644f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 48/76] fix: implications over elements that cannot be compared
 could not be printed

---
 fca/implication.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index 85248a2..e633286 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -56,6 +56,13 @@ class Implication(object):
     conclusion = property(get_reduced_conclusion)
         
     def __repr__(self):
+        def ordered(elements):
+            try:
+                return sorted(elements)
+            except TypeError:
+                # elements that cannot be compared
+                return sorted(elements, key=str)
+
         try:
             premise = ", ".join([element
                                  for element in sorted(self._premise)])
@@ -64,10 +71,10 @@ class Implication(object):
                                     for element in sorted(short_conclusion)])
         except:
             premise = ", ".join([str(element)
-                                 for element in sorted(self._premise)])
+                                 for element in ordered(self._premise)])
             short_conclusion = self._conclusion - self._premise
             conclusion = ", ".join([str(element)
-                                    for element in sorted(short_conclusion)])
+                                    for element in ordered(short_conclusion)])
         return " => ".join((premise, conclusion,))
         
     def __unicode__(self):
-- 
2.43.0


From 5c2055e90b986c10cf2a8587e4deeb3eca8d789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 49/76] fix: a concept over names that cannot be compared
 prints

---
 fca/concept.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fca/concept.py b/fca/concept.py
index 8c772f9..0f77ca5 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -39,17 +39,23 @@ class Concept(object):
         self.intent = set(intent)
         self.meta = {}
 
+    @staticmethod
+    def _ordered(elements):
+        try:
+            return sorted(elements)
+        except TypeError:
+            # elements that cannot be compared
+            return sorted(elements, key=str)
+
     def __str__(self):
         """Return a string representation of a concept"""
         if len(self.intent) > 0:
-            e = list(self.extent)
-            e.sort()
+            e = self._ordered(self.extent)
         else:
             # TODO: Sometimes |intent| > 0, but extent is G.
             e = "G"
         if len(self.extent) > 0:
-            i = list(self.intent)
-            i.sort()
+            i = self._ordered(self.intent)
         else:
             # TODO: Sometimes |extent| > 0, but intent is M.
             i = "M"
-- 
2.43.0


From fa16e931a2273d35c446db77dabda9734b2507ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:07 +0000
Subject: [PATCH 50/76] fix: the text of a refused product left out the sizes

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 4eda545..e202c43 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -38,8 +38,8 @@ class MultiplicationException(ContextException):
         self.objs_num_r = len(cxt_r.objects)
         
     def __str__(self):
-        message = "Attributes of the first context:\n".format(self.atts_num_l)
-        message += "\nand number of objects of the second context:\n".format(self.objs_num_r)
+        message = "Attributes of the first context:\n{}".format(self.atts_num_l)
+        message += "\nand number of objects of the second context:\n{}".format(self.objs_num_r)
         message += "\nshould be the same."
         return message
     
-- 
2.43.0


From 7f1820919883a38e9b087cfe82b1c34438cb2597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:07 +0000
Subject: [PATCH 51/76] fix: unknown attribute names that are pairs were
 refused with TypeError

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index e202c43..ea3fc18 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -671,7 +671,7 @@ class Context(object):
         if not set(attribute_names) <= set(self.attributes):
             wrong_attributes = ""
             for a in set(attribute_names) - set(self.attributes):
-                wrong_attributes += "\t%s\n" % a
+                wrong_attributes += "\t{}\n".format(a)
             raise ValueError("Wrong attribute names:\n%s" % wrong_attributes)    
 
     ############################
-- 
2.43.0


From 84aafdc3d67548f58431787e210970a64b284b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:07 +0000
Subject: [PATCH 52/76] fix: write_fimi wrote attribute names that are tuples
 wrongly or not at all

---
 fca/readwrite/fimi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/fimi.py b/fca/readwrite/fimi.py
index b618175..4509100 100644
--- a/fca/readwrite/fimi.py
+++ b/fca/readwrite/fimi.py
@@ -4,7 +4,7 @@ def write_fimi(context, path):
     for o in context.objects:
         intent = context.get_object_intent(o)
         for a in intent:
-            output_file.write('%s ' % a)
+            output_file.write('{} '.format(a))
         output_file.write('\n')
 
     output_file.close()
-- 
2.43.0


From 4d7ecaad1d745c6f1953bb74ed8c8a36ec8d22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 53/76] fix: partial contexts keep their names in step with
 those of their two tables when names repeat

---
 fca/partial_context.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index 67e3271..b644150 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -29,10 +29,11 @@ class PartialContext(object):
         if not subseteq_table(x_table, q_table):
             raise ValueError('x table should be \subseteq q table')
         else:
-            self.objects = copy(objects)
-            self.attributes = copy(attributes)
-            self.x_context = Context(x_table, objects[:], self.attributes[:])
-            self.q_context = Context(q_table, objects[:], self.attributes[:])
+            self.x_context = Context(x_table, objects[:], attributes[:])
+            self.q_context = Context(q_table, objects[:], attributes[:])
+            # names that are not unique are changed by the contexts
+            self.objects = copy(self.x_context.objects)
+            self.attributes = copy(self.x_context.attributes)
 
     def __deepcopy__(self, memo):
         return PartialContext(deepcopy(self.x_context.table, memo),
@@ -93,7 +94,7 @@ class PartialContext(object):
             raise ValueError('inconsistent partial example')
         self.x_context.add_object_with_intent(intent[0], name)
         self.q_context.add_object_with_intent(intent[1], name)
-        self.objects.append(name)
+        self.objects = copy(self.x_context.objects)
         
     def complete(self, implications):
         for xintent, qintent in self.intents():
-- 
2.43.0


From 7a4f0dc92ab45e342b7c01b00b972af5173199ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:40 +0000
Subject: [PATCH 54/76] fix: editing a scale no longer calls the scale's own
 constructor

---
 fca/context.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index ea3fc18..b8ee717 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -387,7 +387,7 @@ class Context(object):
         # not optimised: not expected to be a usual operation
         new_table = np.c_[self.np_table, np.array(col, dtype=self._cell_type)]
         new_attributes = self.attributes + [attr_name]
-        self.__init__(new_table, self.objects, new_attributes)
+        Context.__init__(self, new_table, self.objects, new_attributes)
 
     def add_object(self, row, obj_name):
         """Add new object to context with given name
@@ -400,7 +400,7 @@ class Context(object):
         else:
             new_table = new_row
         new_objects = self.objects + [obj_name]
-        self.__init__(new_table, new_objects, self.attributes)
+        Context.__init__(self, new_table, new_objects, self.attributes)
         
     def add_object_with_intent(self, intent, obj_name):
         row = [(attr in intent) for attr in self.attributes]
@@ -416,28 +416,28 @@ class Context(object):
             new_column[i] = True
         self.np_table[:, self.attribute_indices[name]] = new_column
         new_table = self.np_table.tolist()
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def set_object_intent(self, intent, name):
         new_row = [False]*len(self.attributes)
         for i in [self.attribute_indices[x] for x in intent]:
             new_row[i] = True
         self.table[self.object_indices[name]] = new_row
-        self.__init__(self.table, self.objects, self.attributes)
+        Context.__init__(self, self.table, self.objects, self.attributes)
 
     def delete_object(self, name):
         obj_index = self.object_indices[name]
         self.np_table = np.delete(self.np_table, obj_index, 0)
         new_table = self.np_table.tolist()
         del self.objects[obj_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def delete_attribute(self, name):
         att_index = self.attribute_indices[name]
         self.np_table = np.delete(self.np_table, att_index, 1)
         new_table = self.np_table.tolist()
         del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
         # a name may be given twice
@@ -446,15 +446,15 @@ class Context(object):
         new_table = self.np_table.tolist()
         for att_index in sorted(att_inds, reverse=True):
             del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def rename_object(self, old_name, name):
         self.objects[self.object_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        Context.__init__(self, self.table, self.objects, self.attributes)
 
     def rename_attribute(self, old_name, name):
         self.attributes[self.attribute_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        Context.__init__(self, self.table, self.objects, self.attributes)
         
     def oprime_inds(self, obj_inds):
         """
-- 
2.43.0


From 0b2b0cf630193ef47a10907fbf7b50b4e6f56a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:12 +0000
Subject: [PATCH 55/76] fix: every session of an exploration checks examples
 against its own accepted implications

---
 fca/algorithms/exploration2/exploration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/exploration2/exploration.py b/fca/algorithms/exploration2/exploration.py
index 8dd900f..3be2c97 100644
--- a/fca/algorithms/exploration2/exploration.py
+++ b/fca/algorithms/exploration2/exploration.py
@@ -112,5 +112,6 @@ class Exploration(object):
         self._cxt = copy(cxt)
 
     def create_session(self):
-        return ExplorationSession(self._cxt)
+        # sessions have accepted implications of their own
+        return ExplorationSession(copy(self._cxt))
 
-- 
2.43.0


From 65a408fddea3a61095fa793c85e507173dcf7fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 56/76] fix: names that are no texts or contain quotes or
 backslashes made diagram files fail or unreadable

---
 fca/readwrite/dot.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/dot.py b/fca/readwrite/dot.py
index 6d86450..35f69b3 100644
--- a/fca/readwrite/dot.py
+++ b/fca/readwrite/dot.py
@@ -41,7 +41,7 @@ def write_dot(cs, path):
             if len(own_objects[cs[i]]) >= 5:
                 own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     _label_text(own_objects[cs[i]]))
             output_file.write(
                 "labeldistance=1,labelangle=270,color=transparent]\n")
         if len(own_attributes[cs[i]])!=0:
@@ -50,7 +50,7 @@ def write_dot(cs, path):
             if len(own_attributes[cs[i]]) >= 5:
                 own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     _label_text(own_attributes[cs[i]]))
             output_file.write(
                 "labeldistance=2,labelangle=90,color=transparent]\n")
 
@@ -98,7 +98,7 @@ def uwrite_dot(cs, path, full=False):
                 own_objects[cs[i]] = own_objects[cs[i]][:6] + ["..."]
             n = len(own_objects[cs[i]])
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     _label_text(own_objects[cs[i]]))
             output_file.write(
                 "labeldistance={0},labelangle=270,color=transparent]\n".format(n/1.8 + 0.5))
         if len(own_attributes[cs[i]])!=0:
@@ -111,7 +111,7 @@ def uwrite_dot(cs, path, full=False):
                 own_attributes[cs[i]] = own_attributes[cs[i]][:6] + ["..."]
             n = len(own_attributes[cs[i]])
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     _label_text(own_attributes[cs[i]]))
             output_file.write(
                 "labeldistance={0},labelangle=90,color=transparent]\n".format(n/1.8 + 0.5))
 
@@ -119,6 +119,11 @@ def uwrite_dot(cs, path, full=False):
 
     output_file.close()
 
+def _label_text(names):
+    """Return the text of a label with one name per line"""
+    return "\\n ".join(str(name).replace("\\", "\\\\").replace('"', '\\"')
+                      for name in names)
+
 def find_own_objects(cs):
     """Return set of own objects for current concept"""
     own_objects = {}
-- 
2.43.0


From 80c27a86e50b2955e4fddbc60615c480ff1febdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 57/76] fix: uwrite_cxt failed on names that are no texts, such
 as those read_cxt gives

---
 fca/readwrite/cxt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index 7d5f903..e5b837f 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -123,11 +123,11 @@ def uwrite_cxt(context, path):
     output_file.write(str(len(context.attributes))+"\n\n")
 
     for i in range(len(context.objects)):
-        output_file.write(context.objects[i])
+        output_file.write(str(context.objects[i]))
         output_file.write("\n")
 
     for i in range(len(context.attributes)):
-        output_file.write(context.attributes[i])
+        output_file.write(str(context.attributes[i]))
         output_file.write("\n")
 
     cross = {True : "X", False : "."}
-- 
2.43.0


From c338c37dc95cbe1a347facafd082d0d76d044107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 58/76] fix: write_xml failed on names that are no texts

---
 fca/readwrite/xml_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index e1e87a8..9f47594 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj)
+            textnode = newdoc.createTextNode(str(obj))
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr)
+            textnode = newdoc.createTextNode(str(attr))
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
-- 
2.43.0


From 9ff37e84de72e23d9ea4fd4c3fe78060f1a976a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:29 +0000
Subject: [PATCH 59/76] fix: comparing scales or many-valued contexts denied
 that they are contexts

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index b8ee717..9318e83 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -696,7 +696,7 @@ class Context(object):
         return output
     
     def __eq__(self, other):
-        if type(other) != Context:
+        if not isinstance(other, Context):
             raise TypeError("An input object should be a context!")
         if (len(self.objects) != len(other.objects) or
               len(self.attributes) != len(other.attributes)):
-- 
2.43.0


From 17b56bdac13d4f21bfa4e91cfd66a984ce44ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:00 +0000
Subject: [PATCH 60/76] fix: blank lines at the end of delimited text files
 made reading fail

---
 fca/readwrite/comma_separated.py | 2 ++
 fca/readwrite/tab_separated.py   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7b232c2..345b5a1 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -49,6 +49,8 @@ def read_mv_csv(path):
         
     table = []
     for rec in rdr:
+        if not rec:                             # blank line
+            continue
         objects.append(str(rec[0]).strip())
         line = []
         for val in rec[1:]:
diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index c97ceb8..4c33990 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -29,6 +29,8 @@ def read_txt_with_names(path):
     table = []
     objects = []
     for rec in rdr:
+        if not rec:                             # blank line
+            continue
         objects.append(rec[0])                  # read objects names
         line = []
         for num in rec[1:]:
@@ -91,6 +93,8 @@ def read_txt(path):
     
     table = []
     for rec in rdr:
+        if not rec and attributes:              # blank line
+            continue
         line = []
         for num in rec:
             if num == "0":
@@ -162,6 +166,8 @@ def read_mv_txt(path):
     
     table = []
     for rec in rdr:
+        if not rec and attributes:              # blank line
+            continue
         line = []
         for num in rec:
             line.append(num)
@@ -229,6 +235,8 @@ def uread_mv_txt(path):
     
     table = []
     for rec in rdr:
+        if not rec and attributes:              # blank line
+            continue
         line = []
         for num in rec:
             line.append(num)
-- 
2.43.0


From 46c12009d166a2ff1443e90713c884df008636c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:00 +0000
Subject: [PATCH 61/76] fix: many-valued contexts could not be printed

---
 fca/mvcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index 666ed1e..b631dec 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -120,6 +120,12 @@ class ManyValuedContext(Context):
         return ManyValuedContext(table, object_names, self.attributes)
                             
 
+    def __repr__(self):
+        output = ", ".join(map(str, self.attributes)) + "\n"
+        for obj, row in zip(self.objects, self.table):
+            output += "\t".join(map(str, [obj] + row)) + "\n"
+        return output
+
     ############################
     # Emulating container type #
     ############################
-- 
2.43.0


From 0c4df70c85eded0651dcc6ed19a6a16f3c65950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 62/76] fix: completing a partial context stopped halfway where
 names cannot be printed

---
 fca/partial_context.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index b644150..ef0912f 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -112,12 +112,6 @@ class PartialContext(object):
                                                                     <= qintent
                              ])
             self.q_context.set_object_intent(new_qintent, o)
-            # TODO: Remove printing
-            if xintent != new_xintent or qintent != new_qintent:
-                print('Object', o)
-                print(self._intent_to_str(xintent, qintent))
-                print('completed to ')
-                print(self._intent_to_str(new_xintent, new_qintent))
             
     def intents(self):
         for obj in self.objects:
-- 
2.43.0


From c3fc069414b0076a5a08d3eece1a50879cd3da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:37 +0000
Subject: [PATCH 63/76] fix: no closures and bases of contexts with names that
 cannot be compared

---
 fca/algorithms/closure_operators.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 61b3f9c..edc8a1a 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -25,14 +25,21 @@ def aprime(attributes, context):
         objects &= context.get_attribute_extent(a)
     return objects
     
+def _ordered(elements):
+    try:
+        return sorted(elements)
+    except TypeError:
+        # elements that cannot be compared
+        return sorted(elements, key=str)
+
 def oclosure(objects, context):
     """Return the closure of objects in context as a sorted list"""
-    return sorted(aprime(oprime(objects, context), context))
+    return _ordered(aprime(oprime(objects, context), context))
     
 
 def aclosure(attributes, context):
     """Return the closure of attributes in context as a sorted list"""
-    return sorted(oprime(aprime(attributes, context), context))
+    return _ordered(oprime(aprime(attributes, context), context))
     
     
 def simple_closure(s, implications):
-- 
2.43.0


From bfa44b3ed32e918be5cf68c48fc10fe59a89e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 64/76] fix: the attribute-incremental basis was wrong or
 missing where names are not ordered

---
 fca/algorithms/aibasis.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/fca/algorithms/aibasis.py b/fca/algorithms/aibasis.py
index 777360e..e19868b 100644
--- a/fca/algorithms/aibasis.py
+++ b/fca/algorithms/aibasis.py
@@ -4,8 +4,6 @@ Attribute Incremental algorithm for finding the canonical basis.
 @author: Sergei Obiedkov
 """
 
-from functools import cmp_to_key
-
 import fca
 
 from fca.algorithms import closure_operators
@@ -23,17 +21,6 @@ def kclosure(s, k, cxt):
     return closure
 
 
-def compare_tuples(p, r):
-    """
-    Compare tuples by the second element (set of attributes) wrt lectical order.
-    """
-    diff = p[1] ^ r[1]
-    if diff:
-        return 1 if sorted(diff)[0] in p[1] else -1
-    else:
-        return 0
-
-
 def compute_canonical_basis(cxt, close=closure_operators.simple_closure):
     preclosed = [(set(cxt.objects), set())]
     basis = []
@@ -89,7 +76,8 @@ def update_preclosed(i, cxt, preclosed, close):
             basis.append(impl)
             mod_extra.append(non_min_mod[j])
         
-    mod_extra.sort(key=cmp_to_key(compare_tuples))
+    # lectical order; names need not be comparable
+    mod_extra.sort(key=lambda p: [a in p[1] for a in cxt.attributes])
     
     return new_preclosed + mod_extra, basis
 
-- 
2.43.0


From 57947a7f58ae1af5890838b757ab2d565b50c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:56 +0000
Subject: [PATCH 65/76] fix: no complement of a context whose attribute names
 are not text

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 9318e83..8aeaaf1 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -793,7 +793,7 @@ class Context(object):
         @return: complementary context
         @note: original context remains unchanged
         """
-        complementary_attributes = ['not ' + self.attributes[i]
+        complementary_attributes = ['not ' + str(self.attributes[i])
                                for i in range(len(self.attributes))]
         complementary_table = []
         for i in range(len(self.objects)):
-- 
2.43.0


From 73724afa78cd4cf9718b8a6c0f1753d7969c5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:56 +0000
Subject: [PATCH 66/76] fix: contexts and scales whose attribute names are not
 text could not be scaled

---
 fca/algorithms/scaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/scaling.py b/fca/algorithms/scaling.py
index 4360ccb..7f8b84f 100644
--- a/fca/algorithms/scaling.py
+++ b/fca/algorithms/scaling.py
@@ -53,8 +53,8 @@ def scale_mvcontext(mvcontext, scales):
                             value = str(mvcontext[obj][attr_index])
                         if eval(scale.objects[row], {"value" : value}):
                             derived_attr[obj] = scale[row][col]
-            new_attribute_name = ":".join([mvcontext.attributes[attr_index],
-                                                  scale.attributes[col]])
+            new_attribute_name = ":".join([str(mvcontext.attributes[attr_index]),
+                                                  str(scale.attributes[col])])
             derived_context.add_attribute(derived_attr, new_attribute_name)                                    
     return derived_context
         
-- 
2.43.0


From 63c7f15e2882a08d731001f41e2a025d5df588a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:02 +0000
Subject: [PATCH 67/76] fix: the probability of concepts was lost to underflow
 in contexts of more than a thousand objects

---
 fca/algorithms/filtering/probability.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/fca/algorithms/filtering/probability.py b/fca/algorithms/filtering/probability.py
index 8b0b97c..0418ae7 100644
--- a/fca/algorithms/filtering/probability.py
+++ b/fca/algorithms/filtering/probability.py
@@ -3,7 +3,7 @@ Created on 12.02.2010
 
 @author: jupp
 """
-from math import exp, log
+from math import exp, lgamma, log
 
 def compute_probability(lattice):
     
@@ -35,16 +35,12 @@ def compute_probability(lattice):
                     return exp(mult)
                 else:
                     t = k * log_p_B + (n - k) * log((1 - p_B)) + mult
+                    # times the number of subsets of this size
+                    t += lgamma(n + 1) - lgamma(k + 1) - lgamma(n - k + 1)
                     t = exp(t)
                     # print k, t
             except:
                 t = 0
-            nom = list(range(n - k + 1, n + 1))
-            den = list(range(1, k + 1))
-            if len(den) != len(nom):
-                print("False")
-            for i in range(len(nom)):
-                t *= nom[i] / float(den[i])
             ans += t
         return ans
 
-- 
2.43.0


From d7bc3c2a804c028cea313afbf779d21a454141f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:52 +0000
Subject: [PATCH 68/76] fix: examples of a two-sided exploration under a name
 already taken renamed what confirmed implications are about

---
 fca/algorithms/exploration.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index 4dba84a..e661922 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -132,6 +132,7 @@ class BasicExploration(object):
         
         if not self.check_intent_for_conflicts(intent):
             raise BasisConflict(intent)    
+        self._check_name(name, self.context.objects)
             
         # if counter example is correct, we add new object to context
         # and recompute stem base with confirmed implications as basis
@@ -155,12 +156,18 @@ class BasicExploration(object):
             
         if not self.check_extent_for_conflicts(extent):
             raise BasisConflict(extent)
+        self._check_name(name, self.context.attributes)
             
         # if counter example is correct, we add new attribute to context
         # and recompute stem base with confirmed implications as basis
         self.context.add_attribute_with_extent(extent, name)
         self.recompute_basis()    
         
+    def _check_name(self, name, names):
+        # equal names would be renamed, confirmed implications would not
+        if name in names:
+            raise fca.context.NotUniqueElementException(name)
+
     def check_extent_for_conflicts(self, extent):
         """
         Checks new attribute with *extent* for conflicts with confirmed
@@ -193,6 +200,7 @@ class BasicExploration(object):
         if not self.check_intent_for_conflicts(intent):
             raise BasisConflict(intent)
         else:
+            self._check_name(name, self.context.objects)
             self.context.add_object_with_intent(intent, name)
             self.recompute_basis()
             
@@ -200,6 +208,7 @@ class BasicExploration(object):
         if not self.check_extent_for_conflicts(extent):
             raise BasisConflict(extent)
         else:
+            self._check_name(name, self.context.attributes)
             self.context.add_attribute_with_extent(extent, name)
             self.recompute_basis()
             
-- 
2.43.0


From b77a435e7a38f02c28adb6ce9c253db9d410526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:52 +0000
Subject: [PATCH 69/76] fix: an attribute that confirmed implications are about
 could be deleted from under them

---
 fca/algorithms/exploration_/exploration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index f49ca61..39d807e 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -110,6 +110,9 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
+        for imp in self._implications:
+            if name in imp.premise or name in imp.conclusion:
+                raise IllegalContextModification()
         self._cxt.delete_attribute(name)
 
     @context_modifier
-- 
2.43.0


From ac4fedfe0652bde9647b3b8f975861ad78b97333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:52 +0000
Subject: [PATCH 70/76] fix: confirmed implications kept the old name of a
 renamed attribute

---
 fca/algorithms/exploration_/exploration.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 39d807e..7081d6d 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -70,6 +70,17 @@ class ExplorationDB(object):
                     not closure(intent[0], self._implications) <= intent[1]):
                 raise IllegalContextModification()
 
+    @staticmethod
+    def _renamed(imp, old_name, name):
+        if old_name not in imp.premise | imp.conclusion:
+            return imp
+        imp = deepcopy(imp)
+        for atts in (imp._premise, imp._conclusion):
+            if old_name in atts:
+                atts.remove(old_name)
+                atts.add(name)
+        return imp
+
     @base_modifier
     def confirm_implication(self, imp):
         """docstring for confirm_implication"""
@@ -133,6 +144,9 @@ class ExplorationDB(object):
             raise NotUniqueAttributeName()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
+        if old_name != name:
+            self._implications[:] = [self._renamed(imp, old_name, name)
+                                     for imp in self._implications]
             
     def get_open_implications(self):
         return copy(self._cxt_implications)
-- 
2.43.0


From 87b1736bf7a4d4d5dd57e17d4c96ad049a55271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:06 +0000
Subject: [PATCH 71/76] fix: many-valued contexts refused values that are
 sequences

---
 fca/context.py   |  9 ++++++---
 fca/mvcontext.py | 15 +++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 8aeaaf1..241dd82 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -268,13 +268,16 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=self._cell_type).reshape(
+        self.np_table = self._to_array(cross_table).reshape(
             len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
                                   for ind, att in enumerate(_attributes)}
         
+    def _to_array(self, rows):
+        return np.array(rows, dtype=self._cell_type)
+
     def get_table(self):
         return self.np_table
     table = property(get_table)
@@ -385,7 +388,7 @@ class Context(object):
     def add_attribute(self, col, attr_name):
         """Add new attribute to context with given name"""
         # not optimised: not expected to be a usual operation
-        new_table = np.c_[self.np_table, np.array(col, dtype=self._cell_type)]
+        new_table = np.c_[self.np_table, self._to_array([[v] for v in col])]
         new_attributes = self.attributes + [attr_name]
         Context.__init__(self, new_table, self.objects, new_attributes)
 
@@ -394,7 +397,7 @@ class Context(object):
 
         @note: very slow, not suitable for incrementally creating a context"""
         # not optimised: not expected to be a usual operation
-        new_row = np.array([row], dtype=self._cell_type)
+        new_row = self._to_array([row])
         if self.np_table.shape[0] > 0:
             new_table = np.vstack((self.np_table, new_row))
         else:
diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index b631dec..0cefc17 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -5,6 +5,8 @@ Holds class for many valued context
 
 import copy
 
+import numpy as np
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -70,6 +72,19 @@ class ManyValuedContext(Context):
         # self._objects = objects
         # self._attributes = attributes
 
+    def _to_array(self, rows):
+        # cell by cell: values may be sequences
+        rows = [row.tolist() if isinstance(row, np.ndarray) else list(row)
+                for row in rows]
+        array = np.empty((len(rows), len(rows[0]) if rows else 0),
+                         dtype=self._cell_type)
+        for i, row in enumerate(rows):
+            if len(row) != array.shape[1]:
+                raise ValueError("All rows must be of the same length")
+            for j, value in enumerate(row):
+                array[i, j] = value
+        return array
+
     def get_objects(self):
         return self._objects
 
-- 
2.43.0


From 84f2e0fbbf1a477b01e1c4725485767c9c918571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:39 +0000
Subject: [PATCH 72/76] fix: a unit implication whose premise contains its
 conclusion could not be used

---
 fca/implication.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index e633286..65220c3 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -123,7 +123,8 @@ class UnitImplication(Implication):
 
     def get_reduced_conclusion(self):
         conclusion = super().conclusion
-        assert len(conclusion) == 1
+        # empty if the premise contains it
+        assert len(conclusion) <= 1
         return conclusion
     
     conclusion = property(get_reduced_conclusion)
-- 
2.43.0


From c00ac5fd20c6eec8e407efccd00d75c64ab0eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:39 +0000
Subject: [PATCH 73/76] fix: frozen sets were taken for partial examples

---
 fca/algorithms/exploration_/exploration.py | 4 ++--
 fca/implication.py                         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 7081d6d..14123b5 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -66,7 +66,7 @@ class ExplorationDB(object):
                 if not imp.is_respected(intent):
                     raise IllegalContextModification()
             # a partial example must have a completion
-            if (type(intent) != set and
+            if (not isinstance(intent, (set, frozenset)) and
                     not closure(intent[0], self._implications) <= intent[1]):
                 raise IllegalContextModification()
 
@@ -200,7 +200,7 @@ class AttributeExploration(object):
         """docstring for reject_implication"""
         examples, intents = self.expert.provide_counterexample(imp)
         # TODO: refactor
-        if type(intents) == set:
+        if isinstance(intents, (set, frozenset)):
             examples, intents = [examples], [intents]
         if imp.is_respected(intents[0]):
             raise NotCounterexample()
diff --git a/fca/implication.py b/fca/implication.py
index 65220c3..ed9049e 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -94,7 +94,7 @@ class Implication(object):
         """Checks whether *some_set* respects an implication or not"""
         # if some_set contains every element from premise and not every
         # element from conclusion then it doesn't respect an implication
-        if type(some_set) == set:
+        if isinstance(some_set, (set, frozenset)):
             return not self.premise <= some_set or self.conclusion <= some_set
         else:
             # Assume a partial example
@@ -150,7 +150,7 @@ class NegativeImplication(Implication):
         """Checks whether *some_set* respects the negative implication"""
         # if some_set contains every element from premise and any
         # element from conclusion then it doesn't respect an implication
-        if type(some_set) == set:
+        if isinstance(some_set, (set, frozenset)):
             return (not self.premise <= some_set or
                     not (self.conclusion & some_set))
         else:
-- 
2.43.0


From aa529330f44bf4cae5062d15a6fb00d518d1dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:39 +0000
Subject: [PATCH 74/76] fix: positions in frozen sets and other collections
 without order had no derivation

---
 fca/context.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 241dd82..2c4a0a8 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -464,8 +464,7 @@ class Context(object):
         Compute the set of all attributes shared by given objects. Objects
         are specified by indices.
         """
-        if type(obj_inds) == set:
-            obj_inds = list(obj_inds)
+        obj_inds = list(obj_inds)
         try:
             common_intent = self.np_table[obj_inds[0], :].copy()
         except IndexError:
@@ -480,8 +479,7 @@ class Context(object):
         Compute the set of all objects shared by given attributes. Attributes
         are specified by indices.
         """
-        if type(att_inds) == set:
-            att_inds = list(att_inds)
+        att_inds = list(att_inds)
         try:
             common_extent = self.np_table[:, att_inds[0]].copy()
         except IndexError:
@@ -534,8 +532,7 @@ class Context(object):
         return associative_aprime
 
     def associative_oprime_inds(self, obj_inds):
-        if type(obj_inds) == set:
-            obj_inds = list(obj_inds)
+        obj_inds = list(obj_inds)
         if len(obj_inds) == 0:
             return {att_ind: 0 for att_ind in range(len(self.attributes))}
         all_atts_list = []
@@ -544,8 +541,7 @@ class Context(object):
         return Counter(all_atts_list)
 
     def associative_aprime_inds(self, att_inds):
-        if type(att_inds) == set:
-            att_inds = list(att_inds)
+        att_inds = list(att_inds)
         if len(att_inds) == 0:
             return {obj_ind: 0 for obj_ind in range(len(self.objects))}
         all_objs_list = []
-- 
2.43.0


From e75ba600eb68cf5a76e067915b9e986fd19ad2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:39 +0000
Subject: [PATCH 75/76] fix: contexts made with tuples of names could not be
 edited

---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 2c4a0a8..ebfbc33 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -245,7 +245,7 @@ class Context(object):
             raise ValueError("Number of attributes (=%i) and number of cross table"
                     " columns (=%i) must agree" % (len(attributes),
                         len(cross_table[0])))
-        _attributes = attributes[:]
+        _attributes = list(attributes)
         while len(set(_attributes)) < len(_attributes):
             for att in _attributes:
                 if _attributes.count(att) > 1:
@@ -255,7 +255,7 @@ class Context(object):
                     message =  "Not unique name of attribute '{}', ".format(att)
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
-        _objects = objects[:]
+        _objects = list(objects)
         while len(set(_objects)) < len(_objects):
             for obj in _objects:
                 if _objects.count(obj) > 1:
-- 
2.43.0


From f9f705ec8531f5540e065576dbdcd7a57649b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:22 +0000
Subject: [PATCH 76/76] fix: bases went wrong when the closing procedure
 remembers its answers

---
 fca/algorithms/dg_basis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fca/algorithms/dg_basis.py b/fca/algorithms/dg_basis.py
index 4a61e40..c42e353 100644
--- a/fca/algorithms/dg_basis.py
+++ b/fca/algorithms/dg_basis.py
@@ -54,6 +54,11 @@ def compute_partial_dg_basis(pcxt,
                                         cond=cond)
 
 
+def _with_own_answers(close):
+    """Return *close* that gives fresh sets, which can be modified"""
+    return lambda s, implications: set(close(s, implications))
+
+
 def generalized_compute_dg_basis(attributes,
                                  aclose,
                                  close=closure_operators.simple_closure,
@@ -67,6 +72,7 @@ def generalized_compute_dg_basis(attributes,
     
     """
     relative_basis = []
+    close = _with_own_answers(close)
     
     a = close(set(), imp_basis)
     i = len(attributes)
@@ -122,6 +128,7 @@ def generalized_dg_basis_iter(attributes,
     *aclose* is a closure operator on the set of attributes.
     """    
     relative_basis = []
+    close = _with_own_answers(close)
     a = close(set(), imp_basis)
     i = len(attributes)
     
-- 
2.43.0

