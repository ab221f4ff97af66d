From 851dc7d9661d668d84d52448e5c49f09fe50c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 01/46] fix: LT add_root puts the new root after the last root

generate_path() was called without the label of the last root, so the first
unused letter was taken: after the leftmost root was deleted, or with more
than 26 roots, the new root was not the rightmost one.
---
 treebeard/ltree/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fd90305..db7ed2f 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -179,7 +179,10 @@ class LT_NodeManager(NodeManager):
 
         if last_root:
             # adding the new root node as the last one
-            newobj.path = generate_path(skip=self.get_root_nodes().values_list("path", flat=True))
+            newobj.path = generate_path(
+                skip=self.get_root_nodes().values_list("path", flat=True),
+                after=last_root.path[-1],
+            )
         else:
             # adding the first root node
             newobj.path = generate_path()
-- 
2.43.0


From 3d390b03868bef55e593112ea7a3caef7d86b175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 02/46] fix: LT sorted insertion and moves go last when no
 sibling is greater

Without an insert_after constraint the first unused letter was taken, which
can be to the left of existing siblings.
---
 treebeard/ltree/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index db7ed2f..20b7dfe 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -251,6 +251,8 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "first-sibling":
             insert_before = self.get_first_sibling(target)
         elif pos == "left":
@@ -289,10 +291,14 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_child(target)
             prefix = target.path
         elif pos == "first-sibling":
             insert_before = self.get_siblings(target).first()
-- 
2.43.0


From 3c5a6ed7f81f2dad1e0a9b9ec9f0e3758bb0fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 03/46] fix: LT shifting siblings to the right keeps their
 order

Appending 'A' to every label swaps labels of which one continues the other
with a digit ('A' and 'A0' become 'AA' and 'A0A'). Such siblings are now moved
one by one, appending '0' where 'A' would overtake the next sibling.
---
 treebeard/ltree/__init__.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 20b7dfe..4775897 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -448,6 +448,15 @@ class LT_NodeManager(NodeManager):
         result_class = self.tree_model
         node_depth = len(start_node.path)
 
+        paths = list(
+            self.get_siblings(start_node).filter(path__gte=start_node.path).order_by("path").values_list("path", flat=True)
+        )
+        if any(left[-1] + "A" >= right[-1] + "A" for left, right in itertools.pairwise(paths)):
+            # A label that is continued by a digit in the label of a right sibling (e.g. "A" and "A0") would
+            # overtake that sibling: these siblings can't be moved with the same bulk update.
+            self._move_siblings_right_one_by_one(paths)
+            return
+
         if node_depth > 1:
             result_class.objects.filter(
                 path__descendants=start_node.path[:-1], path__gte=start_node.path, path__depth=node_depth
@@ -483,6 +492,25 @@ class LT_NodeManager(NodeManager):
             using=queryset.db,
         )
 
+    def _move_siblings_right_one_by_one(self, paths):
+        """
+        Append a character to the last label of each of the (sorted, sibling) paths, preserving their order:
+        'A' if the result sorts before the new label of the next sibling, '0' otherwise.
+        """
+        next_label = None
+        for old_path in reversed(paths):
+            label = old_path[-1] + "A"
+            if next_label is not None and label >= next_label:
+                label = old_path[-1] + "0"
+            new_path = PathValue(old_path[:-1] + [label])
+            branch = self.tree_model.objects.filter(path__descendants=old_path)
+            branch.filter(path__depth__gt=len(old_path)).update(
+                path=Concat(Value(new_path, output_field=PathField()), Subpath(F("path"), len(old_path)))
+            )
+            branch.filter(path__depth=len(old_path)).update(path=new_path)
+            subtree_moved.send(sender=self.tree_model, old_path=old_path, new_path=new_path, using=branch.db)
+            next_label = label
+
     def get_children(self, node):
         """:returns: A queryset of all the node's children"""
         return self.tree_model.objects.filter(path__descendants=node.path, path__depth=len(node.path) + 1)
-- 
2.43.0


From 0af2d9c8823cb0f59d59330dfcb09cc1c28f8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 04/46] fix: MP move among siblings keeps its temporary path
 within steplen

When the last sibling is at the end of the step range, the temporary path was
one character too long: it could collide with another branch, which corrupted
the tree or raised IntegrityError.
---
 treebeard/mp_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0401923..72c038b 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -795,6 +795,9 @@ class MP_NodeManager(NodeManager):
                 last = self.get_last_sibling(target)
                 basenum = last._get_lastpos_in_path()
                 tempnewpath = self.model._get_path(newpath, newdepth, basenum + 2)
+                if len(tempnewpath) > len(newpath):
+                    # There is no room at the end of the list: use step 0, which is never assigned to a node
+                    tempnewpath = self.model._get_path(newpath, newdepth, 0)
                 self._set_newpath_in_branches(oldpath, tempnewpath)
 
         # Optimisation to only move siblings which need moving
-- 
2.43.0


From a9c5b24876c39c9b6b57ea8c9489e812d0f9b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 05/46] fix: MP move raises PathOverflow when the branch gets
 too deep

The paths of the moved branch were not checked against path.max_length:
databases that don't enforce it (SQLite) stored paths that are too long.
---
 treebeard/mp_tree.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 72c038b..b5b5d16 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -524,6 +524,9 @@ class MP_NodeManager(NodeManager):
         ):
             return
 
+        if newdepth > node.depth:
+            self._check_branch_fits(node, newdepth)
+
         # Move nodes
         oldpath, newpath = self._reorder_nodes_before_add_or_move(
             pos, newpos, newdepth, target, siblings, node.path, True
@@ -533,6 +536,21 @@ class MP_NodeManager(NodeManager):
         node.refresh_from_db()  # Node path and depth will have changed
         target.refresh_from_db()
 
+    def _check_branch_fits(self, node, newdepth):
+        """
+        :raise PathOverflow: when the paths of the branch at `node` would be too long at the depth `newdepth`
+        """
+        branch = self.tree_model.objects.filter(path__startswith=node.path)
+        max_depth = newdepth - node.depth + branch.aggregate(max_depth=models.Max("depth"))["max_depth"]
+        if max_depth * self.model.steplen > self.model._meta.get_field("path").max_length:
+            raise PathOverflow(
+                _(
+                    "The moved nodes are too deep in the tree, try"
+                    " increasing the path.max_length property"
+                    " and UPDATE your database"
+                )
+            )
+
     def update_parent_counts_after_move(self, oldpath, newpath):
         """
         Update the numchild value of parent nodes after performing a move.
-- 
2.43.0


From 67fcf27d6bf5a6cb7e1c820a19ee3df92c129cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 06/46] fix: MP load_bulk with bulk_create raises PathOverflow

Paths with too long steps or deeper than path.max_length were stored.
---
 treebeard/mp_tree.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index b5b5d16..16916c3 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -691,6 +691,7 @@ class MP_NodeManager(NodeManager):
         added = []
         bulk_data = prepare_dumpdata_for_loading(self.model, data=bulk_data, keep_ids=keep_ids)
         children_to_create = []
+        max_length = self.model._meta.get_field("path").max_length
 
         def _build_children(parent_node, children) -> None:
             child_depth = parent_node.depth + 1
@@ -699,6 +700,16 @@ class MP_NodeManager(NodeManager):
                 child.object.depth = child_depth
                 child.object.numchild = len(child.children)
                 child.object.path = self.model._get_path(parent_node.path, child_depth, i + 1)
+                if len(child.object.path) != len(parent_node.path) + self.model.steplen:
+                    raise PathOverflow(_(f"Path Overflow: too many children below '{parent_node.path}'"))
+                if len(child.object.path) > max_length:
+                    raise PathOverflow(
+                        _(
+                            "The new node is too deep in the tree, try"
+                            " increasing the path.max_length property"
+                            " and UPDATE your database"
+                        )
+                    )
 
                 children_to_create.append(child)
 
-- 
2.43.0


From d1b10411ac0f5c47471fc500e580d6efd846faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 07/46] fix: delete nodes and update the rest of the tree in
 one transaction

MP decremented the numchild of the parents before, and NS closed the gaps
after, the transaction in which Django deletes the nodes: a failing deletion
(e.g. ProtectedError) left MP parents with a wrong numchild, and an error
after the deletion left NS trees with gaps.
---
 treebeard/ltree/__init__.py |  3 ++-
 treebeard/mp_tree.py        |  3 ++-
 treebeard/ns_tree.py        |  3 ++-
 treebeard/utils.py          | 17 ++++++++++++++++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 4775897..8273ae2 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -15,7 +15,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 from .fields import Ltree2Text, PathField, PathValue, Subpath, Text2LTree
 
@@ -96,6 +96,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 16916c3..daad383 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import check_create_args, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic, check_create_args, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -29,6 +29,7 @@ class MP_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 7a8a8dd..acfa6a1 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -12,7 +12,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 gap_altered = Signal()
 tree_ids_incremented = Signal()
@@ -27,6 +27,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
     Needed only for the customized delete method.
     """
 
+    @atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/utils.py b/treebeard/utils.py
index b2575bf..cdb4c1c 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -1,9 +1,10 @@
+import functools
 import inspect
 from typing import Any, TypedDict
 
 from django.core import serializers
 from django.core.serializers.base import DeserializedObject
-from django.db import models
+from django.db import models, router, transaction
 
 from treebeard.exceptions import NodeAlreadySaved
 
@@ -68,3 +69,17 @@ def check_create_args(func):
         return func(*args, **kwargs)
 
     return wrapper
+
+
+def atomic(func):
+    """
+    Decorator to run a method of a manager or queryset in a transaction on the database
+    that its model is written to.
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with transaction.atomic(using=self._db or router.db_for_write(self.model)):
+            return func(self, *args, **kwargs)
+
+    return wrapper
-- 
2.43.0


From 0ecdec3a404b6c25ca5b22a620671f74c821d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 08/46] fix: tree operations use a transaction on the database
 the model is written to

@transaction.atomic opened it on the default database: with a database router
that sends the model elsewhere, operations were not atomic, and add_child
failed on PostgreSQL (select_for_update outside of a transaction).
---
 treebeard/admin.py          |  4 ++--
 treebeard/al_tree.py        | 12 ++++++------
 treebeard/ltree/__init__.py | 15 +++++++--------
 treebeard/models.py         |  6 +++---
 treebeard/mp_tree.py        | 12 ++++++------
 treebeard/ns_tree.py        | 10 +++++-----
 6 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 38ad92c..975bd34 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -6,7 +6,7 @@ from django import forms
 from django.contrib import admin, messages
 from django.contrib.admin.templatetags.admin_list import result_list
 from django.core.exceptions import PermissionDenied
-from django.db import transaction
+from django.db import router, transaction
 from django.db.models.query import QuerySet
 from django.http import HttpResponse, HttpResponseBadRequest, JsonResponse
 from django.shortcuts import get_object_or_404
@@ -60,7 +60,7 @@ class TreeAdmin(admin.ModelAdmin):
         response = super()._changeform_view(*args, **kwargs)
         if getattr(response, "context_data", {}).get("errors", None):
             # There was an error somewhere, likely in an inline, so we'll need to roll back
-            transaction.set_rollback(True)
+            transaction.set_rollback(True, using=router.db_for_write(self.model))
         return response
 
     def get_urls(self):
diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 4c786cf..ce2aabe 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -1,13 +1,13 @@
 """Adjacency List"""
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Exists, Max, Min, OuterRef
 from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic, check_create_args
 
 
 class AL_NodeManager(NodeManager):
@@ -61,7 +61,7 @@ class AL_NodeManager(NodeManager):
             results.append(node)
             self._get_tree_recursively(results, node, depth + 1, max_depth=max_depth)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -73,7 +73,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the node."""
@@ -92,7 +92,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, instance=None):
         """Adds a new node as a sibling to the current node object."""
@@ -105,7 +105,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 8273ae2..1cf578c 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -7,7 +7,7 @@ import string
 from collections.abc import Iterable
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import F, Func, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat
 from django.dispatch import Signal
@@ -160,7 +160,7 @@ class LT_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -192,7 +192,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -230,7 +230,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -269,7 +269,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
@@ -449,9 +449,8 @@ class LT_NodeManager(NodeManager):
         result_class = self.tree_model
         node_depth = len(start_node.path)
 
-        paths = list(
-            self.get_siblings(start_node).filter(path__gte=start_node.path).order_by("path").values_list("path", flat=True)
-        )
+        siblings = self.get_siblings(start_node).filter(path__gte=start_node.path).order_by("path")
+        paths = list(siblings.values_list("path", flat=True))
         if any(left[-1] + "A" >= right[-1] + "A" for left, right in itertools.pairwise(paths)):
             # A label that is continued by a digit in the label of a right sibling (e.g. "A" and "A0") would
             # overtake that sibling: these siblings can't be moved with the same bulk update.
diff --git a/treebeard/models.py b/treebeard/models.py
index e3059a6..1aa70f0 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -6,13 +6,13 @@ from contextlib import suppress
 from functools import reduce
 
 from django.core import checks
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Q
 from django.utils.functional import cached_property
 
 from treebeard.deprecation import RemovedInTreebeard8Warning, get_moved_manager_classmethod, get_moved_manager_method
 from treebeard.exceptions import InvalidPosition, MissingNodeOrderBy
-from treebeard.utils import prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic, prepare_dumpdata_for_loading, save_m2m
 
 
 class Node(models.Model):
@@ -435,7 +435,7 @@ class NodeManager(models.Manager):
             qs = qs.filter(depth__lte=max_depth)
         return self.get_annotated_list_qs(qs)
 
-    @transaction.atomic
+    @atomic
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
         Loads a list/dictionary structure to the tree.
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index daad383..505a412 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -165,7 +165,7 @@ class MP_NodeManager(NodeManager):
         self._fix_numchild(qs)
 
         if fix_paths:
-            with transaction.atomic():
+            with transaction.atomic(using=router.db_for_write(cls)):
                 # To fix holes and mis-orderings in paths, we consider each non-leaf node in turn
                 # and ensure that its children's path values are consecutive (and in the order
                 # given by node_order_by, if applicable). children_to_fix is a queue of child sets
@@ -337,7 +337,7 @@ class MP_NodeManager(NodeManager):
 
         return evil_chars, bad_steplen, orphans, wrong_depth, wrong_numchild
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -381,7 +381,7 @@ class MP_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -434,7 +434,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -478,7 +478,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves node and all its descendants to a new position
@@ -629,7 +629,7 @@ class MP_NodeManager(NodeManager):
         )  # Subtract the parent node from the count
         return qs
 
-    @transaction.atomic
+    @atomic
     def load_bulk(
         self,
         bulk_data,
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index acfa6a1..4be1511 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -5,7 +5,7 @@ from functools import reduce
 from itertools import groupby
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Case, F, Q, When
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
@@ -110,7 +110,7 @@ class NS_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -139,7 +139,7 @@ class NS_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the target."""
@@ -179,7 +179,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """Adds a new node as a sibling to the target."""
@@ -255,7 +255,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
-- 
2.43.0


From 271d566b2d75c218e53e52b6d6cf3a8f66103c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 09/46] fix: AL get_prev_sibling and get_next_sibling work with
 node_order_by

Models with node_order_by have no sib_order field.
---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index ce2aabe..3591b31 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -224,9 +224,13 @@ class AL_NodeManager(NodeManager):
         return len(self.get_descendants(node, max_depth=max_depth))
 
     def get_prev_sibling(self, node):
+        if self.model.node_order_by:  # there is no sib_order
+            return super().get_prev_sibling(node)
         return self.get_siblings(node).filter(sib_order__lt=node.sib_order).last()
 
     def get_next_sibling(self, node):
+        if self.model.node_order_by:
+            return super().get_next_sibling(node)
         return self.get_siblings(node).filter(sib_order__gt=node.sib_order).first()
 
     def get_root(self, node):
-- 
2.43.0


From 2dcf8faf1d753122ec1f10207ee8bc38ac641b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 10/46] fix: get_annotated_list accepts max_depth for AL and LT
 trees

AL's get_tree returns a list and LT nodes have no depth field.
---
 treebeard/al_tree.py        | 3 +++
 treebeard/ltree/__init__.py | 3 +++
 treebeard/models.py         | 6 +++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 3591b31..35ae32a 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -61,6 +61,9 @@ class AL_NodeManager(NodeManager):
             results.append(node)
             self._get_tree_recursively(results, node, depth + 1, max_depth=max_depth)
 
+    def _limit_depth(self, tree, max_depth):
+        return [node for node in tree if node.get_depth() <= max_depth]
+
     @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 1cf578c..1c56609 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -160,6 +160,9 @@ class LT_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
+    def _limit_depth(self, tree, max_depth):
+        return tree.filter(path__depth__lte=max_depth)
+
     @atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
diff --git a/treebeard/models.py b/treebeard/models.py
index 1aa70f0..6dcb756 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -432,9 +432,13 @@ class NodeManager(models.Manager):
         """
         qs = self.get_tree(parent)
         if max_depth:
-            qs = qs.filter(depth__lte=max_depth)
+            qs = self._limit_depth(qs, max_depth)
         return self.get_annotated_list_qs(qs)
 
+    def _limit_depth(self, tree, max_depth):
+        """:returns: The nodes of the result of :meth:`get_tree` that are not deeper than `max_depth`"""
+        return tree.filter(depth__lte=max_depth)
+
     @atomic
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
-- 
2.43.0


From ef7b63c1ff1e2b12be5c93fb7fa35a0776244e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 11/46] fix: add and move operations refresh the target they
 were given

As documented in the caveats, the node and the target reflect the tree after
the operation. add_sibling left the target with its old position (so that
adding left of the same object twice went wrong), NS add_child set a wrong rgt
on the parent, moving to a child did not refresh the MP parent (its numchild
was incremented even if nothing changed), AL and LT moves did not refresh the
target, and AL moves kept the old depth cached.
---
 treebeard/al_tree.py        |  5 +++++
 treebeard/ltree/__init__.py |  5 ++++-
 treebeard/models.py         |  5 +++++
 treebeard/mp_tree.py        | 12 ++++--------
 treebeard/ns_tree.py        |  3 ++-
 5 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 35ae32a..a27042b 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -106,6 +106,7 @@ class AL_NodeManager(NodeManager):
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
         newobj.save(using=self._db)
+        self._refresh_position(target)
         return newobj
 
     @atomic
@@ -117,6 +118,7 @@ class AL_NodeManager(NodeManager):
 
         pos = self._prepare_pos_var_for_move(pos)
 
+        original_target = target
         sib_order = None
         parent = None
 
@@ -154,6 +156,9 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        node._clear_cached_attributes()  # The depth may have changed
+        if original_target is not node:
+            self._refresh_position(original_target)
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 1c56609..5e918e8 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -268,8 +268,10 @@ class LT_NodeManager(NodeManager):
         elif pos == "last-sibling":
             insert_after = self.get_last_sibling(target)
 
-        newobj.path, _ = self._get_new_path(target.path[:-1], insert_before, insert_after)
+        newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
         newobj.save(using=self._db)
+        if nodes_moved:
+            self._refresh_position(target)
         return newobj
 
     @atomic
@@ -338,6 +340,7 @@ class LT_NodeManager(NodeManager):
         # And update the path for the node itself
         node.path = new_path
         node.save()
+        self._refresh_position(target)
 
         subtree_moved.send(
             sender=result_class,
diff --git a/treebeard/models.py b/treebeard/models.py
index 6dcb756..9d211ca 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -627,6 +627,11 @@ class NodeManager(models.Manager):
         """
         raise NotImplementedError
 
+    def _refresh_position(self, node):
+        """Reload the fields that describe the position in the tree of a node that was given by the caller."""
+        fields = {f.name for f in node._meta.concrete_fields} & set(node.MOVENODE_FORM_EXCLUDED_FIELDS)
+        node.refresh_from_db(fields=fields)
+
     def _prepare_pos_var(self, pos, method_name, valid_pos, valid_sorted_pos):
         if pos is None:
             if self.model.node_order_by:
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 505a412..12f5220 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -402,7 +402,7 @@ class MP_NodeManager(NodeManager):
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            target.numchild += 1
+            target.numchild = node.numchild + 1
             return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
 
         newobj = instance or self.model(**create_kwargs)
@@ -475,6 +475,7 @@ class MP_NodeManager(NodeManager):
         # saving the instance before returning it
         newobj.path = newpath
         newobj.save(using=self._db)
+        self._refresh_position(target)
 
         return newobj
 
@@ -488,6 +489,7 @@ class MP_NodeManager(NodeManager):
            node's new position
         """
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         # initialize variables and if moving to a child, updates "move to
         # child" to become a "move to sibling" if possible (if it can't
@@ -535,7 +537,7 @@ class MP_NodeManager(NodeManager):
 
         self.update_parent_counts_after_move(oldpath, newpath)
         node.refresh_from_db()  # Node path and depth will have changed
-        target.refresh_from_db()
+        original_target.refresh_from_db()
 
     def _check_branch_fits(self, node, newdepth):
         """
@@ -575,7 +577,6 @@ class MP_NodeManager(NodeManager):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-            parent = target
             newdepth += 1
             if target.is_leaf():
                 # moving as a target's first child
@@ -590,11 +591,6 @@ class MP_NodeManager(NodeManager):
                     "sorted-child": "sorted-sibling",
                 }[pos]
 
-            # this is not for save(), since if needed, will be handled with a
-            # custom UPDATE, this is only here to update django's object,
-            # should be useful in loops
-            parent.numchild += 1
-
         return target, newdepth, siblings, newpos, pos
 
     def get_root_nodes(self):
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 4be1511..e8a34af 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -156,7 +156,6 @@ class NS_NodeManager(NodeManager):
             last_child = self.get_last_child(node)
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
-            node.rgt += 2
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
 
@@ -185,6 +184,7 @@ class NS_NodeManager(NodeManager):
         """Adds a new node as a sibling to the target."""
 
         pos = self._prepare_pos_var_for_add_sibling(pos)
+        original_target = target
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = target.depth
@@ -252,6 +252,7 @@ class NS_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.save(using=self._db)
+        self._refresh_position(original_target)
 
         return newobj
 
-- 
2.43.0


From cffc144d1702743488ca6608421f34463a19f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 12/46] fix: adding a node never overwrites the row that
 already uses its primary key

---
 treebeard/al_tree.py        | 6 +++---
 treebeard/ltree/__init__.py | 6 +++---
 treebeard/models.py         | 4 ++++
 treebeard/mp_tree.py        | 6 +++---
 treebeard/ns_tree.py        | 6 +++---
 5 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index a27042b..017128a 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -73,7 +73,7 @@ class AL_NodeManager(NodeManager):
         if not self.model.node_order_by:
             max = self.tree_model.objects.filter(parent=None).aggregate(max=Max("sib_order"))["max"] or 0
             newobj.sib_order = max + 1
-        newobj.save(using=self._db)
+        self._insert(newobj)
         return newobj
 
     @atomic
@@ -92,7 +92,7 @@ class AL_NodeManager(NodeManager):
             )
             newobj.sib_order = max + 1
         newobj.parent = target
-        newobj.save(using=self._db)
+        self._insert(newobj)
         return newobj
 
     @atomic
@@ -105,7 +105,7 @@ class AL_NodeManager(NodeManager):
         if not target.node_order_by:
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
-        newobj.save(using=self._db)
+        self._insert(newobj)
         self._refresh_position(target)
         return newobj
 
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 5e918e8..bbf4871 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -192,7 +192,7 @@ class LT_NodeManager(NodeManager):
             newobj.path = generate_path()
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        self._insert(newobj)
         return newobj
 
     @atomic
@@ -230,7 +230,7 @@ class LT_NodeManager(NodeManager):
             )
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        self._insert(newobj)
         return newobj
 
     @atomic
@@ -269,7 +269,7 @@ class LT_NodeManager(NodeManager):
             insert_after = self.get_last_sibling(target)
 
         newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
-        newobj.save(using=self._db)
+        self._insert(newobj)
         if nodes_moved:
             self._refresh_position(target)
         return newobj
diff --git a/treebeard/models.py b/treebeard/models.py
index 9d211ca..056fcda 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -627,6 +627,10 @@ class NodeManager(models.Manager):
         """
         raise NotImplementedError
 
+    def _insert(self, newobj):
+        """Save a new node. Fails if its primary key is already used, instead of overwriting the node that uses it."""
+        newobj.save(using=self._db, force_insert=(models.Model,))
+
     def _refresh_position(self, node):
         """Reload the fields that describe the position in the tree of a node that was given by the caller."""
         fields = {f.name for f in node._meta.concrete_fields} & set(node.MOVENODE_FORM_EXCLUDED_FIELDS)
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 12f5220..aeae693 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -378,7 +378,7 @@ class MP_NodeManager(NodeManager):
         newobj.depth = 1
         newobj.path = newpath
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        self._insert(newobj)
         return newobj
 
     @atomic
@@ -430,7 +430,7 @@ class MP_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj._cached_parent_obj = target
-        newobj.save(using=self._db)
+        self._insert(newobj)
 
         return newobj
 
@@ -474,7 +474,7 @@ class MP_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.path = newpath
-        newobj.save(using=self._db)
+        self._insert(newobj)
         self._refresh_position(target)
 
         return newobj
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index e8a34af..a683b7a 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -136,7 +136,7 @@ class NS_NodeManager(NodeManager):
         newobj.lft = 1
         newobj.rgt = 2
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        self._insert(newobj)
         return newobj
 
     @atomic
@@ -174,7 +174,7 @@ class NS_NodeManager(NodeManager):
         newobj._cached_parent_obj = target
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        self._insert(newobj)
 
         return newobj
 
@@ -251,7 +251,7 @@ class NS_NodeManager(NodeManager):
             newobj.rgt = newpos + 1
 
         # saving the instance before returning it
-        newobj.save(using=self._db)
+        self._insert(newobj)
         self._refresh_position(original_target)
 
         return newobj
-- 
2.43.0


From 0206902ae96e8284d09f70f6dc2de29f8feb2e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 13/46] fix: MP load_bulk with bulk_create puts descendants
 below the right parent in sorted trees

---
 treebeard/mp_tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index aeae693..1b724e8 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -723,7 +723,13 @@ class MP_NodeManager(NodeManager):
             )
             save_m2m(node_obj, deserialized_obj)
             added.append(node_obj.pk)
-            _build_children(node_obj, deserialized_obj.children)
+
+        # Adding a node may move the ones added before it, so the paths of descendants are known only now
+        for deserialized_obj in bulk_data:
+            if deserialized_obj.children:
+                if self.model.node_order_by:
+                    deserialized_obj.object.refresh_from_db(fields=["path"])
+                _build_children(deserialized_obj.object, deserialized_obj.children)
 
         # Bulk create descendants
         created = self.bulk_create([obj.object for obj in children_to_create], batch_size=batch_size)
-- 
2.43.0


From 7e345e1c44bfa6bbf2c7c0fa6070a005885f3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 14/46] fix: nodes of inherited models are recognised as the
 same node in every position

---
 treebeard/al_tree.py        | 10 +++++-----
 treebeard/ltree/__init__.py |  2 +-
 treebeard/mp_tree.py        |  8 ++++----
 treebeard/ns_tree.py        | 22 +++++++++++-----------
 4 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 017128a..a7f9f78 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -123,7 +123,7 @@ class AL_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -143,10 +143,10 @@ class AL_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if node.pk == target.pk and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and target.pk == self.get_last_sibling(target).pk)
+            or (pos == "first-sibling" and target.pk == self.get_first_sibling(target).pk)
         ):
             # special cases, not actually moving the node, so nothing to do
             return
@@ -275,7 +275,7 @@ class AL_NodeManager(NodeManager):
         return ancestors
 
     def _is_target_pos_the_last_sibling(self, pos, target):
-        return pos == "last-sibling" or (pos == "right" and target == self.get_last_sibling(target))
+        return pos == "last-sibling" or (pos == "right" and target.pk == self.get_last_sibling(target).pk)
 
     def _make_hole_and_get_sibling_order(self, pos, target_node):
         siblings = self.get_siblings(target_node)
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index bbf4871..0c36941 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -283,7 +283,7 @@ class LT_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_move(pos)
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
         if target.is_descendant_of(node):
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 1b724e8..5d67cd8 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -521,9 +521,9 @@ class MP_NodeManager(NodeManager):
             if pos == "last-sibling" and node == self.get_last_sibling(target):
                 return
 
-        if node == target and (
+        if node.pk == target.pk and (
             # Moving a node to left/right of itself is a noop
-            pos == "left" or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
+            pos == "left" or (pos in ("right", "last-sibling") and target.pk == self.get_last_sibling(target).pk)
         ):
             return
 
@@ -573,7 +573,7 @@ class MP_NodeManager(NodeManager):
         newpos = None
         siblings = []
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -796,7 +796,7 @@ class MP_NodeManager(NodeManager):
 
         :returns: A tuple containing the old path and the new path.
         """
-        if (pos == "last-sibling") or (pos == "right" and target == self.get_last_sibling(target)):
+        if (pos == "last-sibling") or (pos == "right" and target.pk == self.get_last_sibling(target).pk):
             # easy, the last node
             last = self.get_last_sibling(target)
             newpath = last._inc_path()
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index a683b7a..ea0f5de 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -201,7 +201,7 @@ class NS_NodeManager(NodeManager):
                     pos = "last-sibling"
 
             last_root = self.get_last_root_node()
-            if (pos == "last-sibling") or (pos == "right" and target == last_root):
+            if (pos == "last-sibling") or (pos == "right" and target.pk == last_root.pk):
                 newobj.tree_id = last_root.tree_id + 1
             else:
                 newpos = {"first-sibling": 1, "left": target.tree_id, "right": target.tree_id + 1}[pos]
@@ -223,7 +223,7 @@ class NS_NodeManager(NodeManager):
                 siblings = self.get_siblings(target)
 
                 if pos == "right":
-                    if target == siblings.last():
+                    if target.pk == siblings.last().pk:
                         pos = "last-sibling"
                     else:
                         pos = "left"
@@ -232,10 +232,10 @@ class NS_NodeManager(NodeManager):
                             if found:
                                 target = node
                                 break
-                            elif node == target:
+                            elif node.pk == target.pk:
                                 found = True
                 if pos == "left":
-                    if target == siblings.first():
+                    if target.pk == siblings.first().pk:
                         pos = "first-sibling"
                 if pos == "first-sibling":
                     target = siblings.first()
@@ -270,7 +270,7 @@ class NS_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -286,10 +286,10 @@ class NS_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if node.pk == target.pk and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and target.pk == self.get_last_sibling(target).pk)
+            or (pos == "first-sibling" and target.pk == self.get_first_sibling(target).pk)
         ):
             # special cases, not actually moving the node so nothing to do
             return
@@ -305,7 +305,7 @@ class NS_NodeManager(NodeManager):
             siblings = self.get_siblings(target)
 
             if pos == "right":
-                if target == siblings.last():
+                if target.pk == siblings.last().pk:
                     pos = "last-sibling"
                 else:
                     pos = "left"
@@ -314,10 +314,10 @@ class NS_NodeManager(NodeManager):
                         if found:
                             target = sib
                             break
-                        elif sib == target:
+                        elif sib.pk == target.pk:
                             found = True
             if pos == "left":
-                if target == siblings.first():
+                if target.pk == siblings.first().pk:
                     pos = "first-sibling"
             if pos == "first-sibling":
                 target = siblings.first()
-- 
2.43.0


From ff08ac3659df414838f87983f915e7a6feb17b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 15/46] fix: generate a label left of '00' instead of refusing
 for want of a gap

---
 treebeard/ltree/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 0c36941..1b29877 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -47,8 +47,8 @@ def generate_label(
     start = after or char_choices[0]
 
     if (
-        before and (before <= start) or before == f"{start}0"
-    ):  # If before == {start}0 there is no semantic gap in between
+        before and (before <= start) or (after and before == f"{after}0")
+    ):  # If before == {after}0 there is no semantic gap in between
         raise InvalidLabelConstraints
 
     # Construct sets of characters for each position, appending one at the end if we need to extend the string
-- 
2.43.0


From ddefe1e2acde5832f1f1259337188815ac3036fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 16/46] fix: the deprecation warning of MP_AddSiblingHandler
 names add_sibling

---
 treebeard/mp_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 5d67cd8..9357d6e 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -1029,7 +1029,7 @@ class MP_AddChildHandler:
 class MP_AddSiblingHandler:
     def __init__(self, node, pos, creation_kwargs: dict[str, Any]):
         warnings.warn(
-            "MP_AddSiblingHandler is deprecated. Use Node.objects.add_child() instead.",
+            "MP_AddSiblingHandler is deprecated. Use Node.objects.add_sibling() instead.",
             RemovedInTreebeard8Warning,
             stacklevel=2,
         )
-- 
2.43.0


From 4c87313e13bf9ca0c51ae568bb6045311c90be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 17/46] fix: MoveNodeForm refuses a reference node below the
 edited node in AL trees

---
 treebeard/forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 723b752..e978478 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -114,7 +114,9 @@ class MoveNodeForm(forms.ModelForm):
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.all()
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(
+                pk__in=[node.pk for node in descendants]
+            )
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From 1d9b9238ced3e4822c8c8cc9e37de246c876ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 18/46] fix: MoveNodeForm adds a node beside its reference node
 without adding it below first

---
 treebeard/forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index e978478..abfa945 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -174,9 +174,11 @@ class MoveNodeForm(forms.ModelForm):
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-            if reference_node:
+            if reference_node and position_type in ("first-child", "sorted-child"):
                 self.instance = manager.add_child(reference_node, instance=self.instance)
                 manager.move(self.instance, reference_node, pos=position_type)
+            elif reference_node:
+                self.instance = manager.add_sibling(reference_node, position_type, instance=self.instance)
             else:
                 self.instance = manager.add_root(instance=self.instance)
         else:
-- 
2.43.0


From 45bd5155afdbe97a239e230309040722f365960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 19/46] fix: MoveNodeForm does not offer an inherited AL node
 as its own reference node

---
 treebeard/forms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index abfa945..e9d0089 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -105,18 +105,18 @@ class MoveNodeForm(forms.ModelForm):
         if issubclass(opts.model, AL_Node):
             choices = opts.model.objects.get_tree()
             descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            # Nodes may be objects of different classes of a multi-table inheritance, which are never equal
+            descendant_pks = {node.pk for node in descendants}
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
                 (field.prepare_value(node), field.label_from_instance(node))
                 for node in choices
-                if node not in descendants
+                if node.pk not in descendant_pks
             ]
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(
-                pk__in=[node.pk for node in descendants]
-            )
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(pk__in=descendant_pks)
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From 841c3648978c8374b20ecd05b6fbc3c1da26a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 20/46] fix: MoveNodeForm.save changes nothing when there is no
 room at the new position

---
 treebeard/forms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index e9d0089..d4bab7a 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -1,6 +1,7 @@
 """Forms for treebeard."""
 
 from django import forms
+from django.db import router, transaction
 from django.forms.models import modelform_factory as django_modelform_factory
 from django.utils.html import conditional_escape
 from django.utils.safestring import mark_safe
@@ -159,7 +160,11 @@ class MoveNodeForm(forms.ModelForm):
         TreeAdmin handles this by rolling back the entire transaction if the form or any
         inlines report an error. If you use this form elsewhere, you will need to do the same.
         """
+        # The node must not stay half saved if there is no room at its new position
+        with transaction.atomic(using=router.db_for_write(self._meta.model)):
+            return self._save_at_position(commit)
 
+    def _save_at_position(self, commit):
         reference_node = self.cleaned_data.pop("treebeard_ref_node", None)
         position_type = self.cleaned_data.pop("treebeard_position")
         manager = self._meta.model.objects
-- 
2.43.0


From f0031b478e14bf01ced74e83f22dda6cfdeb2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 21/46] fix: MoveNodeForm adds a first child without needing
 room for a second one

---
 treebeard/forms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index d4bab7a..c4c3803 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -179,9 +179,11 @@ class MoveNodeForm(forms.ModelForm):
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-            if reference_node and position_type in ("first-child", "sorted-child"):
+            first_child = manager.get_first_child(reference_node) if reference_node else None
+            if first_child and position_type == "first-child":
+                self.instance = manager.add_sibling(first_child, "first-sibling", instance=self.instance)
+            elif reference_node and position_type in ("first-child", "last-child", "sorted-child"):
                 self.instance = manager.add_child(reference_node, instance=self.instance)
-                manager.move(self.instance, reference_node, pos=position_type)
             elif reference_node:
                 self.instance = manager.add_sibling(reference_node, position_type, instance=self.instance)
             else:
-- 
2.43.0


From ff053f8bf054659018156f44109b7653ac2506c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 22/46] fix: MoveNodeForm of an inherited AL model accepts the
 base-class nodes it offers

---
 treebeard/forms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index c4c3803..069aa1a 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -117,7 +117,8 @@ class MoveNodeForm(forms.ModelForm):
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.exclude(pk__in=descendant_pks)
+            queryset = opts.model.objects.tree_model.objects.exclude(pk__in=descendant_pks)
+            self.fields["treebeard_ref_node"].queryset = queryset
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From 1d820804f98ada98e9e8229209b25d986d62e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 23/46] fix: AL add_child locks the parent row, so that
 concurrent calls don't share a sib_order

---
 treebeard/al_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index a7f9f78..6ccd145 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -87,6 +87,8 @@ class AL_NodeManager(NodeManager):
         except AttributeError:
             pass
         if not self.model.node_order_by:
+            # Lock the parent row, so that concurrent calls don't use the same sib_order
+            self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
             max = (
                 self.model.objects.tree_model.objects.filter(parent=target).aggregate(max=Max("sib_order"))["max"] or 0
             )
-- 
2.43.0


From 255fbc4b78394d8a0fac960673e0570d4ea4363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 24/46] fix: LT add_child survives the concurrent deletion of
 the last child

---
 treebeard/ltree/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 1b29877..cb256e3 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -209,16 +209,16 @@ class LT_NodeManager(NodeManager):
         """
         # Lock parent row
         self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
-        if self.model.node_order_by and not target.is_leaf():
+        # Fetch the last child once, it may be deleted by another transaction in the meantime
+        last_child = self.get_last_child(target)
+        if self.model.node_order_by and last_child:
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            return self.add_sibling(
-                self.get_last_child(target), "sorted-sibling", create_kwargs=create_kwargs, instance=instance
-            )
+            return self.add_sibling(last_child, "sorted-sibling", create_kwargs=create_kwargs, instance=instance)
 
         newobj = instance or self.model(**create_kwargs)
 
-        if target.is_leaf():
+        if last_child is None:
             # the node had no children, adding the first child
             newobj.path = generate_path(prefix=target.path)
         else:
@@ -226,7 +226,7 @@ class LT_NodeManager(NodeManager):
             newobj.path = generate_path(
                 prefix=target.path,
                 skip=self.get_children(target).values_list("path", flat=True),
-                after=self.get_children(target).last().path[-1],
+                after=last_child.path[-1],
             )
 
         # saving the instance before returning it
-- 
2.43.0


From d10a9ccddf3b70349a936f44213d86daa975ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 25/46] fix: MoveNodeForm moves the node when a descending
 node_order_by field changes

---
 treebeard/forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 069aa1a..2a97b61 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -174,7 +174,7 @@ class MoveNodeForm(forms.ModelForm):
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
-            *(manager.tree_model.node_order_by or []),
+            *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
         if not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
-- 
2.43.0


From 88f3bd408ed4e517b887f82d069619249089c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 26/46] fix: NS delete of a reversed queryset no longer
 corrupts the tree

---
 treebeard/ns_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index ea0f5de..0be5ebf 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -41,7 +41,9 @@ class NS_NodeQuerySet(models.query.QuerySet):
         last_node = None
         toremove = []
         ranges = []
-        for node in self.order_by("tree_id", "lft").values("tree_id", "lft", "rgt").prefetch_related(None).iterator():
+        nodes = self.order_by("tree_id", "lft").values("tree_id", "lft", "rgt").prefetch_related(None).iterator()
+        # Sorted again as a reversed queryset gives the descendants before their ancestors
+        for node in sorted(nodes, key=operator.itemgetter("tree_id", "lft")):
             if (
                 last_node
                 and last_node["tree_id"] == node["tree_id"]
-- 
2.43.0


From fffa8cb4afca3e4fe1bcece352d0c13296e6c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 27/46] fix: MP and LT delete work on a queryset with
 select_related()

---
 treebeard/ltree/__init__.py | 2 +-
 treebeard/mp_tree.py        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index cb256e3..9bc46d9 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -107,7 +107,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
         """
         # Construct the minimal list of nodes that need deleting along with their descendants
         paths_to_remove = set()
-        for node in self.order_by("path").only("path").prefetch_related(None).iterator():
+        for node in self.order_by("path").only("path").select_related(None).prefetch_related(None).iterator():
             found = False
             for depth in range(1, len(node.path)):
                 path = node.path[0:depth]
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 9357d6e..dc0e110 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -42,7 +42,8 @@ class MP_NodeQuerySet(models.query.QuerySet):
         # to be deleted and remove nodes from the list if an ancestor is
         # already getting removed, since that would be redundant
         removed = {}
-        for node in self.order_by("depth", "path").only("path", "depth", "numchild").prefetch_related(None).iterator():
+        nodes = self.order_by("depth", "path").only("path", "depth", "numchild")
+        for node in nodes.select_related(None).prefetch_related(None).iterator():
             found = False
             for depth in range(1, int(len(node.path) / node.steplen)):
                 path = node._get_basepath(node.path, depth)
-- 
2.43.0


From 451c616ad6c310101be78a8e4a0bff65f16411bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 28/46] fix: a tree manager can be the base manager of its
 model

_insert, which a former fix added to the manager, is the name of a method that Django calls on base managers.
---
 treebeard/al_tree.py        | 6 +++---
 treebeard/ltree/__init__.py | 6 +++---
 treebeard/models.py         | 2 +-
 treebeard/mp_tree.py        | 6 +++---
 treebeard/ns_tree.py        | 6 +++---
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 6ccd145..9f3f813 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -73,7 +73,7 @@ class AL_NodeManager(NodeManager):
         if not self.model.node_order_by:
             max = self.tree_model.objects.filter(parent=None).aggregate(max=Max("sib_order"))["max"] or 0
             newobj.sib_order = max + 1
-        self._insert(newobj)
+        self._save_new(newobj)
         return newobj
 
     @atomic
@@ -94,7 +94,7 @@ class AL_NodeManager(NodeManager):
             )
             newobj.sib_order = max + 1
         newobj.parent = target
-        self._insert(newobj)
+        self._save_new(newobj)
         return newobj
 
     @atomic
@@ -107,7 +107,7 @@ class AL_NodeManager(NodeManager):
         if not target.node_order_by:
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
-        self._insert(newobj)
+        self._save_new(newobj)
         self._refresh_position(target)
         return newobj
 
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 9bc46d9..2f0557c 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -192,7 +192,7 @@ class LT_NodeManager(NodeManager):
             newobj.path = generate_path()
 
         # saving the instance before returning it
-        self._insert(newobj)
+        self._save_new(newobj)
         return newobj
 
     @atomic
@@ -230,7 +230,7 @@ class LT_NodeManager(NodeManager):
             )
 
         # saving the instance before returning it
-        self._insert(newobj)
+        self._save_new(newobj)
         return newobj
 
     @atomic
@@ -269,7 +269,7 @@ class LT_NodeManager(NodeManager):
             insert_after = self.get_last_sibling(target)
 
         newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
-        self._insert(newobj)
+        self._save_new(newobj)
         if nodes_moved:
             self._refresh_position(target)
         return newobj
diff --git a/treebeard/models.py b/treebeard/models.py
index 056fcda..42aecac 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -627,7 +627,7 @@ class NodeManager(models.Manager):
         """
         raise NotImplementedError
 
-    def _insert(self, newobj):
+    def _save_new(self, newobj):
         """Save a new node. Fails if its primary key is already used, instead of overwriting the node that uses it."""
         newobj.save(using=self._db, force_insert=(models.Model,))
 
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index dc0e110..a5dc333 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -379,7 +379,7 @@ class MP_NodeManager(NodeManager):
         newobj.depth = 1
         newobj.path = newpath
         # saving the instance before returning it
-        self._insert(newobj)
+        self._save_new(newobj)
         return newobj
 
     @atomic
@@ -431,7 +431,7 @@ class MP_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj._cached_parent_obj = target
-        self._insert(newobj)
+        self._save_new(newobj)
 
         return newobj
 
@@ -475,7 +475,7 @@ class MP_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.path = newpath
-        self._insert(newobj)
+        self._save_new(newobj)
         self._refresh_position(target)
 
         return newobj
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 0be5ebf..eb0eead 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -138,7 +138,7 @@ class NS_NodeManager(NodeManager):
         newobj.lft = 1
         newobj.rgt = 2
         # saving the instance before returning it
-        self._insert(newobj)
+        self._save_new(newobj)
         return newobj
 
     @atomic
@@ -176,7 +176,7 @@ class NS_NodeManager(NodeManager):
         newobj._cached_parent_obj = target
 
         # saving the instance before returning it
-        self._insert(newobj)
+        self._save_new(newobj)
 
         return newobj
 
@@ -253,7 +253,7 @@ class NS_NodeManager(NodeManager):
             newobj.rgt = newpos + 1
 
         # saving the instance before returning it
-        self._insert(newobj)
+        self._save_new(newobj)
         self._refresh_position(original_target)
 
         return newobj
-- 
2.43.0


From 3e07be893b7d7171383a9eb9db4e7ef449c69bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 29/46] fix: add_child works where the model's manager uses
 select_related()

Rows on the nullable side of an outer join cannot be locked on PostgreSQL, and the fields of a relation
that is followed cannot be deferred.
---
 treebeard/al_tree.py        | 2 +-
 treebeard/ltree/__init__.py | 2 +-
 treebeard/mp_tree.py        | 2 +-
 treebeard/ns_tree.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 9f3f813..06479ce 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -88,7 +88,7 @@ class AL_NodeManager(NodeManager):
             pass
         if not self.model.node_order_by:
             # Lock the parent row, so that concurrent calls don't use the same sib_order
-            self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
+            self.tree_model.objects.filter(pk=target.pk).select_for_update().select_related(None).only("pk").get()
             max = (
                 self.model.objects.tree_model.objects.filter(parent=target).aggregate(max=Max("sib_order"))["max"] or 0
             )
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 2f0557c..cf086af 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -208,7 +208,7 @@ class LT_NodeManager(NodeManager):
         ```
         """
         # Lock parent row
-        self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
+        self.tree_model.objects.filter(pk=target.pk).select_for_update().select_related(None).only("pk").get()
         # Fetch the last child once, it may be deleted by another transaction in the meantime
         last_child = self.get_last_child(target)
         if self.model.node_order_by and last_child:
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index a5dc333..2c903c7 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -399,7 +399,7 @@ class MP_NodeManager(NodeManager):
         :raise PathOverflow: when no more child nodes can be added
         """
         # Lock the parent row
-        node = target.__class__.objects.select_for_update().get(pk=target.pk)
+        node = target.__class__.objects.select_for_update().select_related(None).get(pk=target.pk)
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index eb0eead..b879864 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -148,7 +148,7 @@ class NS_NodeManager(NodeManager):
         # Fetch the parent afresh from the database and lock the row
         # This guards against race conditions and state drift when adding multiple children,
         # and also ensures that we're working with the base tree model in the case of inherited models
-        node = target.__class__.objects.filter(pk=target.pk).select_for_update().get()
+        node = target.__class__.objects.filter(pk=target.pk).select_for_update().select_related(None).get()
         if not node.is_leaf():
             # there are child nodes, delegate insertion to add_sibling
             if node.node_order_by:
-- 
2.43.0


From 49814d161ab77c99a0f8e4ac8f42c173db1380df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 30/46] fix: dump_bulk, find_problems and fix_tree work where
 the model's manager uses prefetch_related()

---
 treebeard/ltree/__init__.py | 2 +-
 treebeard/mp_tree.py        | 6 +++---
 treebeard/ns_tree.py        | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index cf086af..7166753 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -391,7 +391,7 @@ class LT_NodeManager(NodeManager):
             qset = qset.filter(path__descendants=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
-        for pyobj in serializers.serialize("python", qset.iterator()):
+        for pyobj in serializers.serialize("python", qset.prefetch_related(None).iterator()):
             # django's serializer stores the attributes in 'fields'
             fields = pyobj["fields"]
             path = PathValue(fields["path"])
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 2c903c7..3dd35a3 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -264,7 +264,7 @@ class MP_NodeManager(NodeManager):
             # Our friend MySQL doesn't support update queries that use a select from the same table
             # So we have to update each object individually
             to_update = []
-            for node in qs.iterator():
+            for node in qs.prefetch_related(None).iterator():
                 node.numchild = node.real_numchild
                 to_update.append(node)
 
@@ -305,7 +305,7 @@ class MP_NodeManager(NodeManager):
 
         evil_chars, bad_steplen, orphans = [], [], []
         wrong_depth, wrong_numchild = [], []
-        for node in qs.iterator():
+        for node in qs.prefetch_related(None).iterator():
             found_error = False
             for char in node.path:
                 if char not in cls.alphabet:
@@ -756,7 +756,7 @@ class MP_NodeManager(NodeManager):
             qset = qset.filter(path__startswith=parent.path)
         ret, lnk = [], {}
         pk_field = cls._meta.pk.attname
-        for pyobj in serializers.serialize("python", qset.iterator()):
+        for pyobj in serializers.serialize("python", qset.prefetch_related(None).iterator()):
             # django's serializer stores the attributes in 'fields'
             fields = pyobj["fields"]
             path = fields["path"]
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index b879864..69b41e5 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -391,7 +391,7 @@ class NS_NodeManager(NodeManager):
         qset = self.get_tree(parent)
         ret, lnk = [], {}
         pk_field = self.model._meta.pk.attname
-        for pyobj in qset.iterator():
+        for pyobj in qset.prefetch_related(None).iterator():
             serobj = serializers.serialize("python", [pyobj])[0]
             # django's serializer stores the attributes in 'fields'
             fields = serobj["fields"]
@@ -453,10 +453,10 @@ class NS_NodeManager(NodeManager):
         reversed_lft_rgt, overlapping_nodes, duplicate_tree_ids, wrong_depth = [], [], [], []
 
         # Iterate over the nodes in order of tree_id and lft
-        qs = qs.order_by("tree_id", "lft").values("pk", "tree_id", "lft", "rgt", "depth").iterator()
+        qs = qs.order_by("tree_id", "lft").values("pk", "tree_id", "lft", "rgt", "depth")
 
         # Consider each tree individually
-        for tree_id, nodes in groupby(qs, operator.itemgetter("tree_id")):
+        for tree_id, nodes in groupby(qs.prefetch_related(None).iterator(), operator.itemgetter("tree_id")):
             stack = []
             has_seen_root_node = False
 
-- 
2.43.0


From 991fd54b528cd87b10f62dc7bff53ea49db8f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 31/46] fix: a deferred ltree path is loaded when it is
 accessed, instead of raising KeyError

---
 treebeard/ltree/fields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/ltree/fields.py b/treebeard/ltree/fields.py
index 7c3575d..a62c882 100644
--- a/treebeard/ltree/fields.py
+++ b/treebeard/ltree/fields.py
@@ -45,6 +45,8 @@ class PathValueProxy:
         if instance is None:
             return self
 
+        if self.field_name not in instance.__dict__:  # The field is deferred
+            instance.refresh_from_db(fields=[self.field_name])
         value = instance.__dict__[self.field_name]
 
         if value is None:
-- 
2.43.0


From 4bfb26418d92f07ff3cad5617bed48cc44991cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 32/46] fix: LT insertions and moves work where the model's
 manager uses prefetch_related()

---
 treebeard/ltree/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 7166753..ab24c9b 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -184,7 +184,7 @@ class LT_NodeManager(NodeManager):
         if last_root:
             # adding the new root node as the last one
             newobj.path = generate_path(
-                skip=self.get_root_nodes().values_list("path", flat=True),
+                skip=self.get_root_nodes().prefetch_related(None).values_list("path", flat=True),
                 after=last_root.path[-1],
             )
         else:
@@ -225,7 +225,7 @@ class LT_NodeManager(NodeManager):
             # adding the new child as the last one
             newobj.path = generate_path(
                 prefix=target.path,
-                skip=self.get_children(target).values_list("path", flat=True),
+                skip=self.get_children(target).prefetch_related(None).values_list("path", flat=True),
                 after=last_child.path[-1],
             )
 
@@ -431,7 +431,7 @@ class LT_NodeManager(NodeManager):
                 prefix=prefix,
                 before=insert_before_path,
                 after=insert_after_path,
-                skip=siblings.values_list("path", flat=True),
+                skip=siblings.prefetch_related(None).values_list("path", flat=True),
             )
         except InvalidLabelConstraints:
             # We failed to find a path within the available range. That means we need to move the insert_before
@@ -456,7 +456,7 @@ class LT_NodeManager(NodeManager):
         node_depth = len(start_node.path)
 
         siblings = self.get_siblings(start_node).filter(path__gte=start_node.path).order_by("path")
-        paths = list(siblings.values_list("path", flat=True))
+        paths = list(siblings.prefetch_related(None).values_list("path", flat=True))
         if any(left[-1] + "A" >= right[-1] + "A" for left, right in itertools.pairwise(paths)):
             # A label that is continued by a digit in the label of a right sibling (e.g. "A" and "A0") would
             # overtake that sibling: these siblings can't be moved with the same bulk update.
-- 
2.43.0


From 86e6f436a6eb3632c5003702f1d14c4cc8d0ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 33/46] fix: MoveNodeForm accepts an instance that is not saved
 yet

---
 treebeard/forms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 2a97b61..096ed1f 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -137,7 +137,9 @@ class MoveNodeForm(forms.ModelForm):
 
         # Set initial values for treebeard fields
 
-        initial_ = self._get_initial(instance) if instance else {}
+        # An instance that is not saved yet has no position in the tree
+        node = None if instance is None or instance._state.adding else instance
+        initial_ = self._get_initial(node) if node else {}
         if initial is not None:
             initial_.update(initial)
 
@@ -148,7 +150,7 @@ class MoveNodeForm(forms.ModelForm):
             self.__position_choices_sorted if self.is_sorted else self.__position_choices_unsorted
         )
 
-        self._set_ref_model_queryset(opts, instance)
+        self._set_ref_model_queryset(opts, node)
 
     def save(self, commit=True):
         """
-- 
2.43.0


From ecfb66307bcf403257f6ad3f85d5df73756e1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 34/46] fix: MoveNodeForm applies a position that is submitted
 as given in initial

---
 treebeard/forms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 096ed1f..bdbb24d 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -142,6 +142,9 @@ class MoveNodeForm(forms.ModelForm):
         initial_ = self._get_initial(node) if node else {}
         if initial is not None:
             initial_.update(initial)
+        # Without a present position, or with initial values that override it, the
+        # position fields have to be applied even if they were submitted as offered
+        self._must_position = node is None or not {"treebeard_ref_node", "treebeard_position"}.isdisjoint(initial or ())
 
         super().__init__(*args, instance=instance, initial=initial_, **kwargs)
 
@@ -178,7 +181,7 @@ class MoveNodeForm(forms.ModelForm):
             "treebeard_position",
             *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
-        if not set(self.changed_data) & treebeard_fields:
+        if not self._must_position and not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-- 
2.43.0


From 4428a684e4636d9fd0435d501dcf209d1e439330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 35/46] fix: the ltree nodes_deleted signal lists PathValue
 objects, as documented

---
 treebeard/ltree/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index ab24c9b..e1e972f 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -125,7 +125,11 @@ class LT_NodeQuerySet(models.query.QuerySet):
 
         query = functools.reduce(operator.or_, [Q(path__descendants=path) for path in paths_to_remove])
         result = super(LT_NodeQuerySet, model.objects.filter(query)).delete(*args, **kwargs)
-        nodes_deleted.send(sender=model, paths_to_remove=paths_to_remove, using=self.db)
+        nodes_deleted.send(
+            sender=model,
+            paths_to_remove=[PathValue(path) for path in paths_to_remove],
+            using=self.db,
+        )
         return result
 
     delete.alters_data = True
-- 
2.43.0


From c660ca4177cee8ffdb110d14cfad0f8a4296308d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 36/46] fix: nested sets place last siblings after the parent's
 current last child

---
 treebeard/ns_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 69b41e5..f9bf9aa 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -243,7 +243,7 @@ class NS_NodeManager(NodeManager):
                     target = siblings.first()
 
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, update=True).rgt
                 self._alter_gap(target.tree_id, newpos, 2)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
@@ -343,7 +343,7 @@ class NS_NodeManager(NodeManager):
                 self._move_tree_right(target.tree_id)
         else:
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, update=True).rgt
                 self._alter_gap(target.tree_id, newpos, gap)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
-- 
2.43.0


From 938dfdc239e4ee718939b59f2e2f669af40f93e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 37/46] fix: adjacency list depths are not taken from stale
 cached ones

---
 treebeard/al_tree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 06479ce..7f3b539 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -81,11 +81,8 @@ class AL_NodeManager(NodeManager):
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the node."""
         newobj = instance or self.model(**create_kwargs)
-
-        try:
-            newobj._cached_depth = target._cached_depth + 1
-        except AttributeError:
-            pass
+        # An ancestor may have been moved since the target was read
+        self._refresh_position(target)
         if not self.model.node_order_by:
             # Lock the parent row, so that concurrent calls don't use the same sib_order
             self.tree_model.objects.filter(pk=target.pk).select_for_update().select_related(None).only("pk").get()
@@ -158,7 +155,7 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
-        node._clear_cached_attributes()  # The depth may have changed
+        self._refresh_position(node)  # The depth may have changed
         if original_target is not node:
             self._refresh_position(original_target)
 
-- 
2.43.0


From e759e859f067cbdaaf2e2817342ebb223eaf6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 38/46] fix: a refused add_child leaves the target object as it
 was

---
 treebeard/mp_tree.py | 12 ++++++++++--
 treebeard/ns_tree.py |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 3dd35a3..5500034 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -404,7 +404,11 @@ class MP_NodeManager(NodeManager):
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
             target.numchild = node.numchild + 1
-            return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            try:
+                return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            except Exception:
+                target.numchild = node.numchild
+                raise
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = node.depth + 1
@@ -431,7 +435,11 @@ class MP_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj._cached_parent_obj = target
-        self._save_new(newobj)
+        try:
+            self._save_new(newobj)
+        except Exception:
+            target.numchild = node.numchild
+            raise
 
         return newobj
 
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index f9bf9aa..e650a88 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -176,7 +176,11 @@ class NS_NodeManager(NodeManager):
         newobj._cached_parent_obj = target
 
         # saving the instance before returning it
-        self._save_new(newobj)
+        try:
+            self._save_new(newobj)
+        except Exception:
+            target.rgt = node.rgt
+            raise
 
         return newobj
 
-- 
2.43.0


From ec98490aa1e3cba568b8fbe3ddd6bbd49bd8182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 39/46] fix: MP sorted insertions and moves shift siblings that
 are out of order, too

---
 treebeard/mp_tree.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 5500034..f3ddbdd 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -467,9 +467,12 @@ class MP_NodeManager(NodeManager):
 
         if pos == "sorted-sibling":
             siblings = self.get_sorted_pos_queryset(self.get_siblings(target), newobj)
-            first = siblings.first()
-            newpos = first._get_lastpos_in_path() if first else None
-            if newpos is None:
+            if first := siblings.first():
+                newpos = first._get_lastpos_in_path()
+                # All siblings from there on, even those that are out of order
+                siblings = self.get_siblings(target).filter(path__gte=first.path)
+            else:
+                newpos = None
                 pos = "last-sibling"
         else:
             newpos, siblings = None, []
@@ -518,6 +521,8 @@ class MP_NodeManager(NodeManager):
                     # The node is already in the right place (same parent,
                     # right before the computed sibling), nothing to do
                     return
+                # All siblings from there on, even those that are out of order
+                siblings = self.get_siblings(target).filter(path__gte=first.path).exclude(pk=node.pk)
             else:
                 newpos = None
                 pos = "last-sibling"
-- 
2.43.0


From 2635022377b3bbf0e3af4d74718180f7f6d3fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 40/46] fix: fix_tree() leaves a half-repaired tree when it
 fails

Depths and numbers of children were updated outside of the transaction that
protects the paths.
---
 treebeard/mp_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index f3ddbdd..5085b8f 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -124,6 +124,7 @@ class MP_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
+    @atomic
     def fix_tree(self, fix_paths=False, parent=None):
         """
         Solves some problems that can appear when transactions are not used and
-- 
2.43.0


From 29753169d2c6143dff2b6e5c331c3c343d5d9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 41/46] fix: the admin's move view keeps the move when saving
 the node fails

---
 treebeard/admin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 975bd34..48f6687 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -135,11 +135,12 @@ class TreeAdmin(admin.ModelAdmin):
         }[relation, bool(self.model.node_order_by)]
 
         try:
-            self.model.objects.move(node, target, pos=pos)
-            # Call the save method on the (reloaded) node in order to trigger
-            # possible signal handlers etc.
-            node.refresh_from_db()
-            node.save()
+            with transaction.atomic(using=router.db_for_write(self.model)):
+                self.model.objects.move(node, target, pos=pos)
+                # Call the save method on the (reloaded) node in order to trigger
+                # possible signal handlers etc.
+                node.refresh_from_db()
+                node.save()
         except (MissingNodeOrderBy, PathOverflow, InvalidMoveToDescendant, InvalidPosition) as exc:
             # An error was raised while trying to move the node, then set an
             # error message and return 400, this will cause a reload on the
-- 
2.43.0


From 99cf007a177addff724ffc11d70ac03e62ecfc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 42/46] fix: AL proxies of multi-table children don't find
 parents of the base class

---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 7f3b539..696c735 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -248,7 +248,7 @@ class AL_NodeManager(NodeManager):
 
     def get_parent(self, node, update=False):
         """:returns: the parent node of the supplied node object."""
-        if self.model._meta.proxy_for_model:
+        if self.tree_model._meta.proxy:
             # the current node is a proxy model; the returned parent
             # should be the same proxy model, so we need to explicitly
             # fetch it as an instance of that model rather than simply
-- 
2.43.0


From b404fce699e5d407a6e2d003bed18602d21fe447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 43/46] fix: tree methods of a proxy of a proxy return nodes of
 the base class

---
 treebeard/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/models.py b/treebeard/models.py
index 42aecac..41f71b3 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -197,7 +197,7 @@ class NodeManager(models.Manager):
         """
         cls = self.model
         base_class = cls._meta.get_field(cls.TREEBEARD_IDENTIFYING_FIELD).model
-        if cls._meta.proxy_for_model == base_class:
+        if cls._meta.proxy and cls._meta.concrete_model == base_class:
             return cls
 
         return base_class
-- 
2.43.0


From 6d8b42d6b13f299ff691eedf0640ee81794080a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 44/46] fix: AL get_depth(update=True) and
 get_parent(update=True) trust a parent that was read before

---
 treebeard/al_tree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 696c735..3d994af 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -258,6 +258,9 @@ class AL_NodeManager(NodeManager):
 
             return self.get(pk=node.parent_id)
 
+        if update:
+            node._state.fields_cache.pop("parent", None)
+
         return node.parent
 
     def get_ancestors(self, node):
@@ -324,6 +327,10 @@ class AL_Node(Node):
         if self.parent_id is None:
             return 1
 
+        if update:
+            # The ancestors may have been moved since they were read
+            self._state.fields_cache.pop("parent", None)
+
         try:
             if update:
                 del self._cached_depth
-- 
2.43.0


From ddc1f34c325a4aea5df120fdbf8127cd8490868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 45/46] fix: the admin's children view fails with a server
 error for an invalid id

---
 treebeard/admin.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 48f6687..a3ce0b6 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -5,10 +5,10 @@ import warnings
 from django import forms
 from django.contrib import admin, messages
 from django.contrib.admin.templatetags.admin_list import result_list
-from django.core.exceptions import PermissionDenied
+from django.core.exceptions import PermissionDenied, ValidationError
 from django.db import router, transaction
 from django.db.models.query import QuerySet
-from django.http import HttpResponse, HttpResponseBadRequest, JsonResponse
+from django.http import Http404, HttpResponse, HttpResponseBadRequest, JsonResponse
 from django.shortcuts import get_object_or_404
 from django.template import loader
 from django.urls import path
@@ -36,7 +36,10 @@ class TreeAdmin(admin.ModelAdmin):
             return super().get_queryset(request)
 
         if request._treebeard_parent_id:
-            parent = get_object_or_404(self.model, pk=request._treebeard_parent_id)
+            try:
+                parent = get_object_or_404(self.model, pk=request._treebeard_parent_id)
+            except (ValueError, ValidationError) as exc:  # Not a valid primary key
+                raise Http404 from exc
             request._treebeard_parent = parent
             qs = self.model.objects.get_children(parent)
         else:
-- 
2.43.0


From c234067c59096c85e7fc51aaaf8ee6453567d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 46/46] fix: NS get_descendant_count() returns a float

---
 treebeard/ns_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index e650a88..1b968f8 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -519,7 +519,7 @@ class NS_NodeManager(NodeManager):
         to the node.
         """
         if not max_depth:
-            return (node.rgt - node.lft - 1) / 2
+            return (node.rgt - node.lft - 1) // 2
 
         return self.get_descendants(node, max_depth=max_depth).count()
 
-- 
2.43.0

