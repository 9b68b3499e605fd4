From 4f990e4457a697397de93c2c1e486259397cc757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 01/31] fix: removing a node with several parents left it in
 the children of some

_remove_node iterated over node.parents while _destroy_relationship removed
entries from that very list, so every second parent was skipped.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From 12a63b61d313a01fb081bb81a8900344e43bb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 02/31] fix: add_node with a circular parent left a half-added
 node

The exception was raised after the node had been stored but before it was
attached to the root and before the node-added callback, so the node was
neither reachable nor shown by any view.
---
 liblarch/tree.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..401f5c2 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -196,12 +196,11 @@ class MainTree(object):
                 self.pending_relationships.remove((rel_parent_id, rel_child_id))
 
         # Build relationship with given parent
+        circular = False
         if parent_id is not None:
             if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
-            if parent_id in self.nodes:
+                circular = True
+            elif parent_id in self.nodes:
                 self._create_relationship(parent_id, node_id)
                 add_to_root = False
                 parents_to_refresh.append(parent_id)
@@ -216,6 +215,12 @@ class MainTree(object):
         # updating the parent and the children is handled by the FT
         self._callback("node-added", node_id)
 
+        # The node is in the tree, only the circular relationship is refused
+        if circular:
+            raise Exception(
+                'Creating circular relationship between {} and {}'.format(
+                    parent_id, node_id))
+
     def _remove_node(self, node_id, recursive=False):
         """ Remove node from tree """
 
-- 
2.43.0


From 48bd81fb3e43983553c19b99d645565f89772c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 03/31] fix: moving a node kept some of its parents, or lost
 them on a refused move

set_parent iterated over self.parents while removing from it, and it removed
the old parents before the new one could be refused as circular.
---
 liblarch/treenode.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..dee5b06 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -90,7 +90,6 @@ class _Node(object):
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
-            is_already_parent_flag = False
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
@@ -101,14 +100,14 @@ class _Node(object):
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
-                    # First we remove all the other parents
-                    for node_id in self.parents:
-                        if node_id != parent_id:
-                            self.remove_parent(node_id)
-                        else:
-                            is_already_parent_flag = True
-                    if parent_id and not is_already_parent_flag:
+                    other_parents = [node_id for node_id in self.parents
+                                     if node_id != parent_id]
+                    # First we add the new parent: if that is refused, the
+                    # node stays where it was
+                    if parent_id:
                         self.add_parent(parent_id)
+                    for node_id in other_parents:
+                        self.remove_parent(node_id)
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-- 
2.43.0


From 8089b55ebe1221d1ea2cbe7a55f5bb555eb7531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 04/31] fix: hiding a node crashed the view when relatives had
 to be updated too

Children and parents were updated while the node was still half linked in
the cache. Unlink it completely before updating its relatives.
---
 liblarch/filteredtree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..3499347 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -236,15 +236,18 @@ class FilteredTree(object):
             for child_id in children:
                 self.send_remove_tree(child_id, node_id)
                 self.nodes[child_id]['parents'].remove(node_id)
-                self.__update_node(child_id, direction="down")
+                self.nodes[node_id]['children'].remove(child_id)
 
             node = self.nodes.pop(node_id)
+            # Remove node from cache
+            for parent_id in node['parents']:
+                self.nodes[parent_id]['children'].remove(node_id)
             for path in paths:
                 self.callback(action, node_id, path)
 
-            # Remove node from cache
+            for child_id in children:
+                self.__update_node(child_id, direction="down")
             for parent_id in node['parents']:
-                self.nodes[parent_id]['children'].remove(node_id)
                 self.__update_node(parent_id, direction="up")
 
             # We update parents who are not displayed
-- 
2.43.0


From 3234eef467fc881b4070fccde177a8140ca1ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 05/31] fix: modifying a displayed node did not re-evaluate its
 hidden parents

A parent whose filter depends on its children ("has a red child") stayed
hidden when a displayed child started to satisfy it.
---
 liblarch/filteredtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 3499347..b711995 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -174,7 +174,7 @@ class FilteredTree(object):
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
-            if action == 'added':
+            if action == 'added' or direction != "down":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
                     if (parent_id not in new_parents and parent_id not in current_parents):
-- 
2.43.0


From bdf98af7d1870c85a0bf0bd686fed3ae532f9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 06/31] fix: flat views kept displaying parents of a node that
 got hidden

In a flat view a displayed parent is not among the view parents of the node,
so a parent that depends on its children was never re-evaluated.
---
 liblarch/filteredtree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index b711995..090992d 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -250,13 +250,12 @@ class FilteredTree(object):
             for parent_id in node['parents']:
                 self.__update_node(parent_id, direction="up")
 
-            # We update parents who are not displayed
+            # We update parents the node was not displayed under
             # If the node is only hidden and still exists in the tree
             if self.tree.has_node(node_id):
-                node = self.tree.get_node(node_id)
-                for parent in node.get_parents():
-                    if parent not in self.nodes:
-                        self.__update_node(parent, direction="up")
+                for parent_id in self.tree.get_node(node_id).get_parents():
+                    if parent_id not in node['parents']:
+                        self.__update_node(parent_id, direction="up")
 
         return completely_updated
 
-- 
2.43.0


From c946f34f3a1432fa11aea0e6875a2d6ee13a8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 07/31] fix: parents were updated while a node was only partly
 linked to them

With several parents changing at once, updating the first could recurse into
a node whose parents list was already new but which the other parents did
not list yet, ending in ValueError. Relink first, then update the parents.
---
 liblarch/filteredtree.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 090992d..52a9d08 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -17,6 +17,8 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 # -----------------------------------------------------------------------------
 
+import itertools
+
 from gi.repository import GObject
 
 
@@ -200,22 +202,21 @@ class FilteredTree(object):
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
-                if direction == "both" or direction == "up":
-                    self.__update_node(parent_id, direction="up")
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
                     self.send_add_tree(node_id, parent_id)
-                    if direction == "both" or direction == "up":
-                        self.__update_node(parent_id, direction="up")
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
-            # We update all the other parents
+            # We update all the parents
             if direction == "both" or direction == "up":
-                for parent_id in stay:
+                for parent_id in itertools.chain(remove_from, add_to, stay):
                     self.__update_node(parent_id, direction="up")
+                # The node might not survive an update of its parents
+                if node_id not in self.nodes:
+                    return completely_updated
             # We update the node itself
             # Why should we call the callback only for modify?
             if action == 'modified':
-- 
2.43.0


From dab6d2027dfdc07e14899b3de43bc6cc9b8f8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 08/31] fix: a node that appears did not take its displayed
 children under it

When a parent was added to the view because of a change below it, its other
displayed children stayed at the root of the view.
---
 liblarch/filteredtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 52a9d08..03558bc 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -226,7 +226,7 @@ class FilteredTree(object):
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-            if direction == "both" or direction == "down":
+            if action == 'added' or direction != "up":
                 for cid in new_children:
                     if cid not in current_children:
                         self.__update_node(cid, direction="down")
-- 
2.43.0


From 3a012f1f51eb2a8b06efbef8559d4e42ca0894a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:06 +0000
Subject: [PATCH 09/31] fix: ViewCount.unregister_cllbck always raised
 AttributeError

---
 liblarch/viewcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..caabd89 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
-- 
2.43.0


From 3bf51ccdd7cbbc206a4601db6565e72705725283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:06 +0000
Subject: [PATCH 10/31] fix: ViewCount mishandled filters which return other
 values than bool

It combined results with a bitwise and, which raises TypeError on None and
makes True & 2 false; a filter removed from the bank raised AttributeError
in the middle of an edit of the tree.
---
 liblarch/viewcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index caabd89..8178f5d 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -83,7 +83,8 @@ class ViewCount(object):
         displayed = True
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            # A filter which left the bank displays nothing, as in views
+            displayed = displayed and filt and filt.is_displayed(nid)
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From 9082411ee41cd2e5b08fab37f459ecf1e1e52a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 11/31] fix: a failing request blocked all later requests from
 other threads

When a queued request raised, GLib dropped the idle handler while the queue
still believed it was installed, so nothing was ever processed again.
---
 liblarch/processqueue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..fcf02ea 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import threading
+import traceback
 
 from gi.repository import GObject
 
@@ -42,7 +43,11 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            try:
+                func(*action[1:])
+            except Exception:
+                # The other requests must still be processed
+                traceback.print_exc()
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From 9f05e9a8cef17d720a29e937d37714dfadcad947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:41 +0000
Subject: [PATCH 12/31] fix: a relationship requested by another thread could
 be lost

The nodes recorded a pending relationship themselves, on the calling thread,
after checking that the other node is missing. If that node was added in
between, the relationship was never established. Let the tree decide, on its
own thread, as it does for the other relationships.
---
 liblarch/treenode.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index dee5b06..22c044c 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -80,8 +80,8 @@ class _Node(object):
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
+                # The tree keeps it as a pending relationship
+                self.tree.new_relationship(parent_id, self.get_id())
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
@@ -95,8 +95,7 @@ class _Node(object):
             elif not self.tree.has_node(parent_id):
                 for p in self.get_parents():
                     self.tree.break_relationship(p, self.get_id())
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
+                self.tree.new_relationship(parent_id, self.get_id())
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
@@ -159,8 +158,8 @@ class _Node(object):
                     self.pending_relationships.append(
                         (self.get_id(), child_id))
                 elif not self.tree.has_node(child_id):
-                    self.tree.pending_relationships.append(
-                        (self.get_id(), child_id))
+                    # The tree keeps it as a pending relationship
+                    self.tree.new_relationship(self.get_id(), child_id)
                 else:
                     child = self.tree.get_node(child_id)
                     if child.has_parents_enabled():
-- 
2.43.0


From 04b09e4ea74513dc00f644d39dfc310354cfc4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:09 +0000
Subject: [PATCH 13/31] fix: relationships were half changed on the calling
 thread

add_child and remove_parent changed one of the two nodes at once and left
the other one for the request that the tree processes later; a request of
another thread for the same relationship in between linked it twice or
not at all.
---
 liblarch/tree.py     | 5 +++--
 liblarch/treenode.py | 2 --
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 401f5c2..f5f3f10 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -312,8 +312,9 @@ class MainTree(object):
         self._destroy_relationship(parent_id, child_id)
 
         # Move to root if beak the last parent
-        if self.nodes[child_id].get_parents() == []:
-            self.root.add_child(child_id)
+        if self.nodes[child_id].get_parents() == [] and \
+                child_id not in self.root.children:
+            self.root.children.append(child_id)
 
         self._callback('node-modified', parent_id)
         self._callback('node-modified', child_id)
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 22c044c..2fdbbc7 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -111,7 +111,6 @@ class _Node(object):
     def remove_parent(self, parent_id):
         """ Remove parent """
         if self.parents_enabled and parent_id in self.parents:
-            self.parents.remove(parent_id)
             self.tree.break_relationship(parent_id, self.node_id)
 
     def has_parent(self, parent_id=None):
@@ -163,7 +162,6 @@ class _Node(object):
                 else:
                     child = self.tree.get_node(child_id)
                     if child.has_parents_enabled():
-                        self.children.append(child_id)
                         self.tree.new_relationship(self.node_id, child_id)
             else:
                 print("{} was already in children of {}".format(
-- 
2.43.0


From 862c0c8faa9b894da9e7f3ed0d6210fb021db882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:37 +0000
Subject: [PATCH 14/31] fix: the GTK model kept the iterator of a removed row

The memory of the row can be used for another row of the same node; the
removed position, added again, was then mistaken for that row.
---
 liblarch_gtk/treemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..5ee5a6d 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -159,6 +159,8 @@ class TreeModel(Gtk.TreeStore):
         assert actual_node_id == node_id
         self.remove(it)
         self.cache_position.pop(path)
+        # The memory of this row can be used for another row
+        self.cache_paths.pop(path, None)
 
     def update_task(self, node_id, path):
         """ Update instance of node by rebuilding the row.
-- 
2.43.0


From aa0762acaa9f6b066151b6b98df1fd28185460c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:37 +0000
Subject: [PATCH 15/31] fix: rows were duplicated when another widget connected
 to the view

get_current_state() announces every row to all observers of the view, also
to the models which already show them.
---
 liblarch_gtk/treemodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 5ee5a6d..92c91d5 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -130,6 +130,10 @@ class TreeModel(Gtk.TreeStore):
         @param node_id: identification of task
         @param path: identification of position
         """
+        # The view announces its rows again when somebody else connects to it
+        if path in self.cache_position:
+            return
+
         node = self.tree.get_node(node_id)
 
         # Build a new row
-- 
2.43.0


From 4ba3538cc06a08162b7241403a5e302a797acdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:37 +0000
Subject: [PATCH 16/31] fix: connecting a GTK model twice handled every event
 twice

TreeView.show() connects the model each time it is called; from then on
every row was added twice and removing a node raised an exception.
---
 liblarch_gtk/treemodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 92c91d5..62827a1 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -36,6 +36,7 @@ class TreeModel(Gtk.TreeStore):
         super(TreeModel, self).__init__(*only_types)
         self.cache_paths = {}
         self.cache_position = {}
+        self.connected = False
         self.tree = tree
 
     def set_column_function(self, column_num, column_func):
@@ -56,6 +57,11 @@ class TreeModel(Gtk.TreeStore):
         Also asks for the current status by providing add_task callback.
         We are able to connect to liblarch tree on the fly. """
 
+        # Connecting again (e.g. TreeView.show()) must not handle events twice
+        if self.connected:
+            return
+        self.connected = True
+
         self.tree.register_cllbck('node-added-inview', self.add_task)
         self.tree.register_cllbck('node-deleted-inview', self.remove_task)
         self.tree.register_cllbck('node-modified-inview', self.update_task)
-- 
2.43.0


From 99bc8a71c4d370fb6b7f395762a7fdd6b39509cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:20 +0000
Subject: [PATCH 17/31] fix: queued actions could run several times or break
 the view

Actions shared a table with the callbacks of the view, so a node with the
id of an event broke it. An action which returned a true value was repeated
by the main loop forever, and an action that led to its node being added
again ran twice.
---
 liblarch/filteredtree.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 03558bc..77425ce 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -51,6 +51,7 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        self.runonce = {}
 
         # Cache
         self.nodes = {}
@@ -90,14 +91,20 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                GObject.idle_add(self.__run_once, func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                if node_id not in self.runonce:
+                    self.runonce[node_id] = []
+                self.runonce[node_id].append([func, node_id, param])
         else:
             self.cllbcks[event] = [func, node_id, param]
 
+    def __run_once(self, func, param):
+        """ Run a callback from the main loop """
+        func(param)
+        # The main loop would call it again for any true value
+        return False
+
     def callback(self, event, node_id, path, neworder=None):
         """ Run a callback.
 
@@ -111,11 +118,9 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
+            for func, nid, param in self.runonce.pop(node_id, []):
                 if nid and self.is_displayed(nid):
                     func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
                 else:
                     raise Exception(
                         '{} is not displayed but {} was added'.format(
-- 
2.43.0


From b835c92a8c25adcfb759c60406deeb1082082969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 18/31] fix: filtered views could not be asked for the children
 of the root

node_has_child(None) and node_nth_child(None, n) raised a KeyError, unlike
node_n_children() and node_all_children() and unlike the main view.
---
 liblarch/filteredtree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 77425ce..edf2542 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -559,6 +559,8 @@ class FilteredTree(object):
         return list(self.nodes[node_id]['children'])
 
     def node_has_child(self, node_id):
+        if node_id is None:
+            node_id = self.root_id
         return len(self.nodes[node_id]['children']) > 0
 
     def node_n_children(self, node_id, recursive=False):
@@ -579,6 +581,8 @@ class FilteredTree(object):
             return len(self.nodes[node_id]['children'])
 
     def node_nth_child(self, node_id, n):
+        if node_id is None:
+            node_id = self.root_id
         return self.nodes[node_id]['children'][n]
 
     def node_parents(self, node_id):
-- 
2.43.0


From 2621e6f61bb67ef34e1b5bb017c92cc25768c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 19/31] fix: a path to a node that is not there raised instead
 of being invalid

get_node_for_path documents None for an invalid path.
---
 liblarch/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f5f3f10..77ea953 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -341,11 +341,12 @@ class MainTree(object):
         if not path or path == ():
             return None
         node_id = path[-1]
+        if node_id not in self.nodes:
+            return None
         if path in self.get_paths_for_node(node_id):
             return node_id
         else:
             return None
-        return node_id
 
     def get_paths_for_node(self, node_id):
         """ Get all paths for node_id """
-- 
2.43.0


From 346ec50d52833ad0d425426ec2bd7923995f9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 20/31] fix: nodes that do not accept children or parents could
 still get them

add_node() with such a parent, and relationships that waited for a node,
linked the nodes although children or parents were disabled; the lists of
the nodes then contradicted what they reported.
---
 liblarch/tree.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 77ea953..c84597d 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -148,6 +148,11 @@ class MainTree(object):
 
         return False
 
+    def _is_allowed_relation(self, parent_id, child_id):
+        """ Do both nodes accept relationships of this kind? """
+        return (self.nodes[parent_id].has_children_enabled() and
+                self.nodes[child_id].has_parents_enabled())
+
     def _add_node(self, node, parent_id):
         """ Add a node to the tree
 
@@ -175,7 +180,9 @@ class MainTree(object):
         for rel_parent_id, rel_child_id in list(self.pending_relationships):
             # Adding as a child
             if rel_child_id == node_id and rel_parent_id in self.nodes:
-                if not self._is_circular_relation(rel_parent_id, node_id):
+                if not self._is_allowed_relation(rel_parent_id, node_id):
+                    pass
+                elif not self._is_circular_relation(rel_parent_id, node_id):
                     self._create_relationship(rel_parent_id, node_id)
                     add_to_root = False
                     parents_to_refresh.append(rel_parent_id)
@@ -187,7 +194,9 @@ class MainTree(object):
 
             # Adding as a parent
             if rel_parent_id == node_id and rel_child_id in self.nodes:
-                if not self._is_circular_relation(node_id, rel_child_id):
+                if not self._is_allowed_relation(node_id, rel_child_id):
+                    pass
+                elif not self._is_circular_relation(node_id, rel_child_id):
                     self._create_relationship(node_id, rel_child_id)
                     children_to_refresh.append(rel_child_id)
                 else:
@@ -201,9 +210,10 @@ class MainTree(object):
             if self._is_circular_relation(parent_id, node_id):
                 circular = True
             elif parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
-                parents_to_refresh.append(parent_id)
+                if self._is_allowed_relation(parent_id, node_id):
+                    self._create_relationship(parent_id, node_id)
+                    add_to_root = False
+                    parents_to_refresh.append(parent_id)
             else:
                 self.pending_relationships.append((parent_id, node_id))
 
@@ -280,6 +290,9 @@ class MainTree(object):
             self.pending_relationships.append((parent_id, child_id))
             return True
 
+        if not self._is_allowed_relation(parent_id, child_id):
+            return False
+
         if self._is_circular_relation(parent_id, child_id):
             self._destroy_relationship(parent_id, child_id)
             raise Exception(
-- 
2.43.0


From f7153cbefd309d9d640700a503df409aeba49320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:03 +0000
Subject: [PATCH 21/31] fix: a view could not be read while it announced a node
 with two parents

The node already listed parents that did not list it as a child, so
get_paths_for_node() and get_node_for_path() raised in callbacks and in
queued actions (the GTK widget calls them there).
---
 liblarch/filteredtree.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index edf2542..80aba27 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -191,10 +191,6 @@ class FilteredTree(object):
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
 
-            self.nodes[node_id]['parents'] = [
-                parent_id for parent_id in new_parents
-                if parent_id in self.nodes]
-
             remove_from = set(current_parents) - set(new_parents)
             add_to = set(new_parents) - set(current_parents)
             stay = set(new_parents) - set(add_to)
@@ -204,17 +200,26 @@ class FilteredTree(object):
             if direction == "down" and self.root_id in add_to:
                 direction = "both"
 
+            # Both sides of a link change together: the callbacks may look at
+            # the tree
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
+                self.nodes[node_id]['parents'].remove(parent_id)
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
+                    self.nodes[node_id]['parents'].append(parent_id)
                     self.send_add_tree(node_id, parent_id)
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
+            # Keep the order of parents
+            self.nodes[node_id]['parents'] = [
+                parent_id for parent_id in new_parents
+                if parent_id in self.nodes]
+
             # We update all the parents
             if direction == "both" or direction == "up":
                 for parent_id in itertools.chain(remove_from, add_to, stay):
-- 
2.43.0


From 1e8206135ddba85d5d5cb95eee16e953ae835844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:24 +0000
Subject: [PATCH 22/31] fix: dropping an empty selection on an external target
 must not raise

---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..1fa528d 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -510,7 +510,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
-- 
2.43.0


From ad61c75eb9e81180d09159ab90c520692989a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:38 +0000
Subject: [PATCH 23/31] fix: an external drop read rows that its own callback
 had removed

---
 liblarch_gtk/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 1fa528d..86bb0f3 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -531,7 +531,10 @@ class TreeView(Gtk.TreeView):
             elif info in self.dnd_external_targets and destination_tid:
                 f = self.dnd_external_targets[info][1]
                 src_model = Gtk.drag_get_source_widget(context).get_model()
-                dragged_iters.append(src_model.get_iter_from_string(iter))
+                # Remember the node, not its row: the function called for one
+                # node may change the rows of the others
+                src_iter = src_model.get_iter_from_string(iter)
+                dragged_iters.append(src_model.get_value(src_iter, 0))
 
         for dragged_iter in dragged_iters:
             if info == 0:
@@ -545,8 +548,7 @@ class TreeView(Gtk.TreeView):
 
             # Handle inter-widget Drag'n'Drop again (like in the previous loop)
             elif info in self.dnd_external_targets and destination_tid:
-                source = src_model.get_value(dragged_iter, 0)
-                f(source, destination_tid)
+                f(dragged_iter, destination_tid)
 
     # Separators support ##############################################
     def _separator_func(self, model, itera, user_data=None):
-- 
2.43.0


From b379110cc1449ef565b4e9470620f3c026528ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 24/31] fix: the rows of a populated view were not expanded by
 default

---
 liblarch_gtk/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 86bb0f3..6e26865 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -192,8 +192,9 @@ class TreeView(Gtk.TreeView):
 
         self.set_model(self.treemodel)
 
-        self.expand_all()
+        # The rows to expand come with the connection to the view
         self.show()
+        self.expand_all()
 
         self.collapsed_paths = []
         self.connect('row-expanded', self.__emit, 'expanded')
-- 
2.43.0


From 8be802f474c44dbfb09b4d95f1854d6fa1b5d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:45 +0000
Subject: [PATCH 25/31] fix: a node that was expanded again was still
 remembered as collapsed

---
 liblarch_gtk/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 6e26865..206e6df 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -255,6 +255,10 @@ class TreeView(Gtk.TreeView):
         if not node_id:
             raise Exception('Missing node_id in path %s' % str(llpath))
 
+        # An expanded node is not collapsed any more
+        self.collapsed_paths = [
+            path for path in self.collapsed_paths if path[-1] != node_id]
+
         schedule_next = True
         for path in self.basetree.get_paths_for_node(node_id):
             iter = self.basetreemodel.my_get_iter(path)
@@ -264,7 +268,8 @@ class TreeView(Gtk.TreeView):
             target_path = self.basetreemodel.get_path(iter)
             if self.basetreemodel.get_value(iter, 0) == node_id:
                 collapsing_method(target_path)
-                self.collapsed_paths.append(path)
+                if collapsing_method != self.expand_one_row:
+                    self.collapsed_paths.append(path)
                 schedule_next = False
 
         if schedule_next:
-- 
2.43.0


From 72fa001c7098d2aaf8645d1c64a7f5b5f6a91a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 26/31] fix: a row kept the old value of a column that has none
 any more

---
 liblarch_gtk/treemodel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 62827a1..62cad0e 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -190,8 +190,7 @@ class TreeModel(Gtk.TreeStore):
             if iterator:
                 for column_num, (__, access_method) in enumerate(self.types):
                     value = access_method(node)
-                    if value is not None:
-                        self.set_value(iterator, column_num, value)
+                    self.set_value(iterator, column_num, value)
 
     def reorder_nodes(self, node_id, path, neworder):
         """ Reorder nodes.
-- 
2.43.0


From d8450a1778be5b30d99873e06f385e29fbd2d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 27/31] fix: a first column with new_column=False was not shown

---
 liblarch_gtk/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 206e6df..7b4f24a 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -117,9 +117,6 @@ class TreeView(Gtk.TreeView):
 
         types = []
         sorting_func = []
-        # Build the first column if user starts with new_colum=False
-        col = Gtk.TreeViewColumn()
-
         # Build columns according to the order
         for col_num, (order_num, col_name) in enumerate(
                 sorted(self.order_of_column), 1):
@@ -137,8 +134,9 @@ class TreeView(Gtk.TreeView):
                 renderer = Gtk.CellRendererText()
 
             # If new_colum=False, do not create new column, use the previous
-            # one. It will create columns without borders.
-            if desc.get('new_column', True):
+            # one. It will create columns without borders. The first column
+            # has no previous one.
+            if desc.get('new_column', True) or col_num == 1:
                 col = Gtk.TreeViewColumn()
                 newcol = True
             else:
-- 
2.43.0


From 3b5178f28417f8581481feedb775598987f5661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 28/31] fix: sorting by a column that comes later raised
 KeyError

---
 liblarch_gtk/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 7b4f24a..fbcf24e 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -116,6 +116,7 @@ class TreeView(Gtk.TreeView):
             self.order_of_column.append((order, col_name))
 
         types = []
+        sorting = []
         sorting_func = []
         # Build columns according to the order
         for col_num, (order_num, col_name) in enumerate(
@@ -162,13 +163,17 @@ class TreeView(Gtk.TreeView):
                 if 'sorting' in desc:
                     # Just allow sorting and use default comparing
                     self.sort_col = desc['sorting']
-                    sort_num, sort_col = self.columns[self.sort_col]
-                    col.set_sort_column_id(sort_num)
+                    sorting.append((col, self.sort_col))
 
                 if 'sorting_func' in desc:
                     # Use special function for comparing, e.g. dates
                     sorting_func.append((col_num, col, desc['sorting_func']))
 
+        # The column to sort by may come after the column that asks for it
+        for col, sort_name in sorting:
+            sort_num, sort_col = self.columns[sort_name]
+            col.set_sort_column_id(sort_num)
+
         self.basetree = tree
         # Build the model around LibLarch tree
         self.basetreemodel = TreeModel(tree, types)
-- 
2.43.0


From 3ed68d9c510c0eda867cd4473dd796e14b7bc9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:34 +0000
Subject: [PATCH 29/31] fix: changing a column function changed the description
 of the columns

---
 liblarch_gtk/treemodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 62cad0e..0a753b4 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -30,7 +30,10 @@ class TreeModel(Gtk.TreeStore):
         self.count = 0
         self.count2 = 0
 
-        self.types = [[str, lambda node: node.get_id()]] + types
+        # The descriptions belong to the caller, set_column_function() must
+        # not change them
+        self.types = [[str, lambda node: node.get_id()]]
+        self.types += [list(column) for column in types]
         only_types = [python_type for python_type, access_method in self.types]
 
         super(TreeModel, self).__init__(*only_types)
-- 
2.43.0


From 2d27d416bce79664f18769f42d655d98f52dba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:51 +0000
Subject: [PATCH 30/31] fix: a child of a removed node was announced before it
 was at the top level

---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index c84597d..b7a63b0 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -260,9 +260,9 @@ class MainTree(object):
                 self._remove_node(child_id, True)
             else:
                 self._destroy_relationship(node_id, child_id)
-                self._callback('node-modified', child_id)
                 if self.nodes[child_id].parents == []:
                     self.root.children.append(child_id)
+                self._callback('node-modified', child_id)
 
         if node_id in self.root.children:
             self.root.children.remove(node_id)
-- 
2.43.0


From 9cfbb30161d07459f3587633ca191dd533b5088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:56 +0000
Subject: [PATCH 31/31] fix: disabling relations from another thread raced with
 the main loop

---
 liblarch/tree.py     |  5 +++++
 liblarch/treenode.py | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index b7a63b0..1de004b 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -94,6 +94,11 @@ class MainTree(object):
     def break_relationship(self, parent_id, child_id):
         self._queue.push(self._break_relationship, parent_id, child_id)
 
+    def set_enabled(self, func, bol):
+        """ Change which relationships a node accepts """
+        # A new function each time: an earlier equal request does not do
+        self._queue.push(lambda: func(bol))
+
     def refresh_all(self):
         """ Refresh all nodes """
         for node_id in list(self.nodes.keys()):
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 2fdbbc7..16a10d6 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -64,6 +64,12 @@ class _Node(object):
 
     # Parents #################################################################
     def set_parents_enabled(self, bol):
+        if self.tree:
+            self.tree.set_enabled(self._set_parents_enabled, bol)
+        else:
+            self._set_parents_enabled(bol)
+
+    def _set_parents_enabled(self, bol):
         if not bol:
             for p in self.get_parents():
                 self.remove_parent(p)
@@ -141,6 +147,12 @@ class _Node(object):
 
     # Children ################################################################
     def set_children_enabled(self, bol):
+        if self.tree:
+            self.tree.set_enabled(self._set_children_enabled, bol)
+        else:
+            self._set_children_enabled(bol)
+
+    def _set_children_enabled(self, bol):
         if not bol:
             for c in self.get_children():
                 self.tree.break_relationship(self.get_id(), c)
-- 
2.43.0

