From fe897a26dead9d493085192fa02b8656c2393aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 01/30] fix: children() compared paths and names by identity,
 so nodes below the world had no children

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..86c543b 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -328,7 +328,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
@@ -366,7 +366,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
-- 
2.43.0


From 83a5fe5c7d14c2a0a4b3d00bb27d063aa4a93e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:26 +0000
Subject: [PATCH 02/30] fix: replace_ancestor with the world as old ancestor
 returned the path unmoved

---
 nxt/nxt_path.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..957c619 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -305,12 +305,10 @@ def replace_ancestor(path, old_ancestor, new_ancestor):
     :rtype: str
     """
     path = _add_path_terminator(path)
-    old_ancestor = _add_path_terminator(old_ancestor)
+    if old_ancestor != WORLD:
+        old_ancestor = _add_path_terminator(old_ancestor)
     new_ancestor = _add_path_terminator(new_ancestor)
-    new_path = new_ancestor + path
-    old_ancestor_is_world = old_ancestor == WORLD
-    if not old_ancestor_is_world:
-        new_path = path.replace(old_ancestor, new_ancestor, 1)
+    new_path = path.replace(old_ancestor, new_ancestor, 1)
     new_path = new_path[:-1]
     return new_path.replace(NODE_SEP+NODE_SEP, NODE_SEP)
 
-- 
2.43.0


From bd57983fa184bcd8c1022f92bf1c44a6e018388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 03/30] fix: ordered children as a node table listed every
 ordered child twice

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 86c543b..e9604d3 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -390,7 +390,7 @@ class SpecLayer(object):
             # return type TABLE
             for item in node_table:
                 p, n = item
-                if p not in ordered_node_table:
+                if item not in ordered_node_table:
                     ordered_node_table += [item]
             node_table = ordered_node_table
 
-- 
2.43.0


From ea234fa64dde9b0d32ab293e9c7860c90c9884c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 04/30] fix: children() handed out its cached lists, callers
 corrupted the cache

---
 nxt/nxt_layer.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index e9604d3..759e6a5 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -294,18 +294,11 @@ class SpecLayer(object):
         if children_cache is not None:
             children_nodes = children_cache[LayerReturnTypes.Node][:]
             children_paths = children_cache[LayerReturnTypes.Path][:]
-            node_table = children_cache[LayerReturnTypes.NodeTable][:]
+            node_table = [item[:] for item in
+                          children_cache[LayerReturnTypes.NodeTable]]
             name_dict = copy.copy(children_cache[LayerReturnTypes.NameDict])
             cache_real = False
         else:
-            self._cached_children[node_path] = {LayerReturnTypes.Node:
-                                                children_nodes,
-                                                LayerReturnTypes.Path:
-                                                children_paths,
-                                                LayerReturnTypes.NodeTable:
-                                                node_table,
-                                                LayerReturnTypes.NameDict:
-                                                name_dict}
             cache_real = True
         # Lookup implied cache
         cache_implied = False
@@ -343,8 +336,12 @@ class SpecLayer(object):
                     if trimmed not in implied_children:
                         implied_children += [trimmed]
         if cache_real:
-            k = LayerReturnTypes.Path
-            self._cached_children[node_path][k] = children_paths[:]
+            # Cache copies, callers are free to change the returned objects.
+            self._cached_children[node_path] = {
+                LayerReturnTypes.Node: children_nodes[:],
+                LayerReturnTypes.Path: children_paths[:],
+                LayerReturnTypes.NodeTable: [i[:] for i in node_table],
+                LayerReturnTypes.NameDict: copy.copy(name_dict)}
         if include_implied:
             for imp in implied_children:
                 if imp not in children_paths:
-- 
2.43.0


From ad0df6937efdcd41a06ccd885baa8a08f6b8a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 05/30] fix: descendants as nodes stopped at the direct
 children

---
 nxt/nxt_layer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 759e6a5..35a5b76 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -446,6 +446,10 @@ class SpecLayer(object):
                 for d_pth, d in more_descendants:
                     _temp += self.children(d_pth, return_type,
                                            include_implied=include_implied)
+            elif return_type == LayerReturnTypes.Node:
+                for d in more_descendants:
+                    _temp += self.children(self.get_node_path(d), return_type,
+                                           include_implied=include_implied)
             descendants += _temp
             more_descendants = _temp
         return descendants
-- 
2.43.0


From 9979e8717265ed789ccb367ebc4b268781f99233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 06/30] fix: child caches of renamed, re-parented, added or
 deleted nodes went stale

---
 nxt/nxt_layer.py | 4 +++-
 nxt/stage.py     | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 35a5b76..bfa340f 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -178,13 +178,15 @@ class SpecLayer(object):
         """Re-populates the node table, and sets nodes' source layer.
         """
         self._node_table = []
+        # Nodes may have moved, implied paths are only known to the caches.
+        self._cached_children = {}
+        self._cached_implied_children = {}
         for path, node in self._nodes_path_as_key.items():
             for attr in get_node_local_attr_names(path, [self]):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
                 setattr(node, source_attr, (self.real_path, path))
             node_ns = nxt_path.str_path_to_node_namespace(path)
             self._node_table += [[node_ns, node]]
-            self.clear_node_child_cache(path)
         self.sort_node_table()
 
     def sort_node_table(self):
diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..ac5248d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -657,6 +657,9 @@ class Stage:
         layer._nodes_node_as_key[new_node] = node_path
         layer.clear_node_child_cache(node_path)
         layer.clear_node_child_cache(node_parent_path)
+        # Ancestors may have cached that they have no such implied child
+        for ancestor_path in nxt_path.all_ancestor_paths(node_path):
+            layer.clear_node_child_cache(ancestor_path)
         node_ns = nxt_path.str_path_to_node_namespace(node_path)
         layer._node_table += [[node_ns, new_node]]
         setattr(new_node, INTERNAL_ATTRS.SOURCE_LAYER, layer.real_path)
-- 
2.43.0


From 3d10f0823802e018665da6786611bce3363f5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 07/30] fix: deleting descendants failed when a descendant path
 is only implied

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index ac5248d..7355c7c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -823,7 +823,8 @@ class Stage:
         descendants = layer.descendants(node_path, layer.RETURNS.Path,
                                         include_implied=True)
         if delete_descendants:
-            remove_node_paths += descendants
+            # Implied descendants have no node to delete
+            remove_node_paths += [p for p in descendants if layer.lookup(p)]
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
         for remove_path in remove_node_paths:
-- 
2.43.0


From 1f2516e2df581edbfa6c04947d3c813452d8b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 08/30] fix: renaming a node left descendants below implied
 parents behind

---
 nxt/stage.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7355c7c..a710c22 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1314,13 +1314,21 @@ class Stage:
                             "node's source layer")
         old_node_path = layer.get_node_path(node)
         rt = layer.RETURNS.Path
-        children_paths = layer.children(old_node_path, return_type=rt,
-                                        include_implied=True)
-        children = []
-        for child_path in children_paths:
-            child_node = layer.lookup(child_path)
-            if child_node is not None:
-                children += [child_node]
+        desc_paths = layer.descendants(old_node_path, return_type=rt,
+                                       include_implied=True)
+        # The nearest nodes below this one by parent path, there may be implied
+        # parents in between. Their own descendants will move with them.
+        children = {}
+        moving_paths = []
+        for desc_path in desc_paths:
+            desc_node = layer.lookup(desc_path)
+            if desc_node is None:
+                continue
+            if any(nxt_path.is_ancestor(desc_path, p) for p in moving_paths):
+                continue
+            moving_paths += [desc_path]
+            desc_parent_path = nxt_path.get_parent_path(desc_path)
+            children.setdefault(desc_parent_path, []).append(desc_node)
 
         if not force:
             # Get the comp layer as the scope where possible to avoid re-comp
@@ -1359,8 +1367,11 @@ class Stage:
         layer._nodes_node_as_key[node] = new_node_path
         layer.clear_node_child_cache(new_node_path)
         layer.clear_node_child_cache(old_node_path)
-        if children:
-            self.parent_nodes(children, new_node_path, layer, check_names=False)
+        for desc_parent_path, nodes in children.items():
+            new_parent_path = nxt_path.replace_ancestor(desc_parent_path,
+                                                        old_node_path,
+                                                        new_node_path)
+            self.parent_nodes(nodes, new_parent_path, layer, check_names=False)
         layer.refresh()
         return new_node_path
 
-- 
2.43.0


From 8181f65b20eba4106043263d938787dc501f7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 09/30] fix: renaming a node could list the new name twice in
 its parent's child order

---
 nxt/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a710c22..d149c54 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1347,10 +1347,10 @@ class Stage:
             child_order_copy = child_order[:]
             del child_order[:]
             for item in child_order_copy:
-                if item != old_name:
+                if item == old_name:
+                    item = name
+                if item not in child_order:
                     child_order += [item]
-                else:
-                    child_order += [name]
 
         layer_data_dicts = [META_DATA_KEY.POSITIONS, META_DATA_KEY.COLLAPSE,
                             '_nodes_path_as_key']
-- 
2.43.0


From 5c50e6a5ea17b54b5d0b21e01ad494c50f256865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 10/30] fix: re-parenting nodes of the same name together lost
 all but one of them

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index d149c54..e0d2899 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1160,6 +1160,9 @@ class Stage:
                             co.remove(child_name)
             new_parent_node = layer.lookup(parent_path)
             if check_names:
+                # The node table must know the new paths of the nodes that
+                # were already parented
+                layer.refresh()
                 new_name = self.get_unique_node_name(name=name,
                                                      layer=layer,
                                                      parent_path=parent_path)
-- 
2.43.0


From 113d16cd16fb5a1c6d7641ac113cb8bfdfb3ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 11/30] fix: the world was listed as an implied child of itself

---
 nxt/nxt_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index bfa340f..61ef49a 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -332,6 +332,9 @@ class SpecLayer(object):
                 if not include_implied or not cache_implied:
                     continue
                 # TODO: Caching the ancestors could save around 51ms per loop
+                if path == node_path:
+                    # The world counts as its own ancestor
+                    continue
                 if nxt_path.is_ancestor(path, node_path):
                     trim_depth = nxt_path.get_path_depth(node_path) + 1
                     trimmed = nxt_path.trim_to_depth(path, trim_depth)
-- 
2.43.0


From 8d094f6a0fc0f75273b2ee75232b555e8fabbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 12/30] fix: resolving a token also replaced its text inside
 other tokens and resolved values

---
 nxt/stage.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e0d2899..e6a7022 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1877,7 +1877,8 @@ class Stage:
 
     def resolve(self, node, text, layer, **kwargs):
         text = str(text)
-        resolved = text
+        resolved = ''
+        remaining = text
         for token in tokens.get_standalone_tokens(text):
             token_content = tokens.get_token_content(token)
             token_type = Stage.determine_token_type(token_content)
@@ -1906,8 +1907,11 @@ class Stage:
             if rep is None:
                 logger.warning('Failed to resolve: {}'.format(token_content))
                 rep = ''
-            resolved = resolved.replace(token, rep)
-        return resolved
+            # Only replace the token itself, replacement values and other
+            # tokens may contain the same text.
+            before, _, remaining = remaining.partition(token)
+            resolved += before + rep
+        return resolved + remaining
 
     def resolve_attr_ref_token(self, node, text, layer):
         """Resolve an attribute ref string into the value contained at that
-- 
2.43.0


From 99ce56a3c0cb815d49f0086594a60076bfab80ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 13/30] fix: clearing a lock override looked for it among the
 color overrides

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 61ef49a..950b9db 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -818,7 +818,7 @@ class SpecLayer(object):
         if not root:
             logger.error('Can not set colors override on top layer!')
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
-- 
2.43.0


From dda4afb69ba74a0f6f79dcef6572b230b944ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 14/30] fix: setting an alias, color or lock override on the
 top layer crashed after its error message

---
 nxt/nxt_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 950b9db..b2f0d47 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -755,6 +755,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set alias override on top layer!')
+            return
         if alias is None:
             if layer_path in list(root.aliases.keys()):
                 root.aliases.pop(layer_path)
@@ -783,6 +784,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if color is None:
             if layer_path in list(root.colors.keys()):
                 root.colors.pop(layer_path)
@@ -817,6 +819,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if lock is None:
             if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
-- 
2.43.0


From b12b00692c375a0146fb842c088563d2a29ce954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 15/30] fix: an outer layer's mute or solo override hid an
 inner layer's override of the other one

---
 nxt/nxt_layer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index b2f0d47..be42ff7 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1154,11 +1154,15 @@ def get_node_local_attr_names(node_path, layers):
 
 def get_comped_layer_overs(layer, over_dict_attr):
     over_dict = {}
-    over_dict.update(getattr(layer, over_dict_attr, {}))
-    parent = layer.parent_layer
-    while parent:
-        over_dict.update(getattr(parent, over_dict_attr, {}))
-        parent = parent.parent_layer
+    while layer:
+        for path, over in getattr(layer, over_dict_attr, {}).items():
+            if isinstance(over, dict):
+                # Each opinion (i.e. mute, solo) is overridden on its own
+                merged = dict(over_dict.get(path, {}))
+                merged.update(over)
+                over = merged
+            over_dict[path] = over
+        layer = layer.parent_layer
     return over_dict
 
 
-- 
2.43.0


From def00a9a6622e59b57930fcb06062199e0705674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 16/30] fix: computing the execution order never ended when
 execute-in links form a cycle

---
 nxt/nxt_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index be42ff7..d28b2b6 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -624,7 +624,10 @@ class SpecLayer(object):
                     continue
                 if not match:
                     continue
-                prev_root_path = self.get_node_path(root)
+                root_path = self.get_node_path(root)
+                if root_path in exec_order:  # Execute in cycle
+                    continue
+                prev_root_path = root_path
                 exec_order += [prev_root_path]
                 break  # for loop
             else:
-- 
2.43.0


From 6a11ef36472c4c08b47e82d8d002090f07ea60f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 17/30] fix: a layer's lock state was not saved

---
 nxt/nxt_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index d28b2b6..5698e63 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -893,6 +893,8 @@ class SpecLayer(object):
             SAVE_KEY.COLOR: self.color,
             SAVE_KEY.META_DATA: self.get_meta_data(),
             SAVE_KEY.NODES: self.get_nodes_save_data()}
+        if self.get_locked(local=True):
+            save_dict[SAVE_KEY.LOCK] = True
         rm = []
         for k, v in save_dict.items():
             if v in ((), [], {}):
@@ -911,7 +913,8 @@ class SpecLayer(object):
         """
         # order keys
         keys_order = (SAVE_KEY.VERSION, SAVE_KEY.ALIAS, SAVE_KEY.COLOR,
-                      SAVE_KEY.MUTE, SAVE_KEY.SOLO, SAVE_KEY.REFERENCES,
+                      SAVE_KEY.MUTE, SAVE_KEY.SOLO, SAVE_KEY.LOCK,
+                      SAVE_KEY.REFERENCES,
                       SAVE_KEY.COMP_ORVERRIDES, SAVE_KEY.META_DATA,
                       SAVE_KEY.NODES, SAVE_KEY.REAL_PATH)
 
-- 
2.43.0


From bdd5ea0fce26f2002115b55633bc719643d15103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 18/30] fix: falsy attribute values were lost when saving a
 layer

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..1a6560f 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -257,7 +257,7 @@ def get_node_as_dict(spec_node):
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
         if typ:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value is not None:
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From 512833ff6c933724fa35fa2660e69d237ef4b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 19/30] fix: expanding a file path left the working directory
 changed when it raised

---
 nxt/nxt_path.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 957c619..4ffd32c 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -27,11 +27,13 @@ def full_file_expand(path, start=None):
     if start:
         os.chdir(start)
 
-    full_path = unify_env_vars(path)
-    full_path = os.path.expandvars(full_path)
-    full_path = os.path.expanduser(full_path)
-    full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
+    try:
+        full_path = unify_env_vars(path)
+        full_path = os.path.expandvars(full_path)
+        full_path = os.path.expanduser(full_path)
+        full_path = os.path.realpath(full_path)
+    finally:
+        os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
-- 
2.43.0


From 4bb94e633c0d515e50386b7ad1f6ca69db206853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 20/30] fix: loading a graph left the working directory changed
 when a reference raised

---
 nxt/stage.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e6a7022..6f36836 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -352,27 +352,29 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
-        for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
-            try:
-                layer_data = nxt_io.load_file_data(sub_layer_path)
-                if not layer_data:
-                    continue
-            except IOError as e:
-                msg_pattern = "Failed to open {} referenced by {}"
-                logger.exception(msg_pattern.format(sub_layer_path, real_path))
+        try:
+            for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
                 try:
-                    parent_layer.sub_layer_paths.remove(sub_layer_path)
-                except ValueError:
-                    pass
-                bad_layer_dat = []
-                for sub_layer_dat in parent_layer.sub_layers:
-                    if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
-                        bad_layer_dat += [sub_layer_dat]
-                for dat in bad_layer_dat:
-                    parent_layer.sub_layers.remove(dat)
-                continue
-            self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
+                    layer_data = nxt_io.load_file_data(sub_layer_path)
+                    if not layer_data:
+                        continue
+                except IOError as e:
+                    msg_pattern = "Failed to open {} referenced by {}"
+                    logger.exception(msg_pattern.format(sub_layer_path, real_path))
+                    try:
+                        parent_layer.sub_layer_paths.remove(sub_layer_path)
+                    except ValueError:
+                        pass
+                    bad_layer_dat = []
+                    for sub_layer_dat in parent_layer.sub_layers:
+                        if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
+                            bad_layer_dat += [sub_layer_dat]
+                    for dat in bad_layer_dat:
+                        parent_layer.sub_layers.remove(dat)
+                    continue
+                self.load_from_file(layer_data, parent_layer=parent_layer)
+        finally:
+            os.chdir(old_cwd)
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From 992c2215c575213cdb5777cc9ec92f3380c6e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 21/30] fix: loading layers that reference each other in a
 cycle recursed without end

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 6f36836..df83b05 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -358,6 +358,9 @@ class Stage:
                     layer_data = nxt_io.load_file_data(sub_layer_path)
                     if not layer_data:
                         continue
+                    if self.check_for_layer_ref_cycle(parent_layer,
+                                                      layer_data['real_path']):
+                        raise IOError('Layer reference cycle')
                 except IOError as e:
                     msg_pattern = "Failed to open {} referenced by {}"
                     logger.exception(msg_pattern.format(sub_layer_path, real_path))
-- 
2.43.0


From 1a5349e039a483f8f51a8e7e0a098d3567f950a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 22/30] fix: a session left its rpc server running when an
 execution failed early

---
 nxt/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index b7eb1f6..aeee546 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -178,8 +178,8 @@ class Session(object):
                 self.shutdown_rpc_server()
         else:
             self._start_rpc_server()
-            proxy = NxtClient()
             try:
+                proxy = NxtClient()
                 cache_file = proxy.exec_in_headless(filepath, start, None,
                                                     parameters, context)
                 return nxt_layer.CacheLayer.load_from_filepath(cache_file)
@@ -189,8 +189,8 @@ class Session(object):
     def execute_nodes(self, filepath, node_paths, parameters=None):
         stage = self.get_stage(filepath)
         self.start_rpc_if_needed(stage)
-        comp_layer = stage.build_stage()
         try:
+            comp_layer = stage.build_stage()
             return stage.execute_nodes(node_paths=node_paths,
                                        layer=comp_layer, parameters=parameters)
         finally:
-- 
2.43.0


From df76c70720e334b76569b56d6e8d6c256346e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 23/30] fix: an rpc server that failed to start in time was
 left running

---
 nxt/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/session.py b/nxt/session.py
index aeee546..06d3344 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -340,7 +340,9 @@ class RPCServerProcess(object):
             count += 1
             if self.is_running():
                 break
-        if count == self.STARTUP_TIMEOUT:
+        else:
+            self.terminal.terminate()
+            self.terminal = None
             raise OSError('Failed to start RPC server!')
         logger.debug('rpc server started')
         if old_env_verbosity is not None:
-- 
2.43.0


From 9a96318ddcd53a9acb8b62a5f2512f9a41d8a259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 24/30] fix: a global declaration also kept variables whose
 name is a prefix of the declared name

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index df83b05..4691e84 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4161,8 +4161,11 @@ def clean_globals(code_lines, good_keys, global_dict):
     sus_keys = [k for k in cur_keys if k not in good_keys]
     safe_keys = [] + good_keys
     for sus_key in sus_keys:
+        # Match whole names, "global foo" does not declare "fo"
+        declared = re.compile(r'\bglobal\b[\w\s,]*\b{}\b'
+                              .format(re.escape(str(sus_key))))
         for line in code_lines:
-            if 'global {}'.format(sus_key) in line:
+            if declared.search(line):
                 safe_keys += [sus_key]
                 break
     for bad_key in [k for k in cur_keys if k not in safe_keys]:
-- 
2.43.0


From fe5f4a95787514d98907ebd2395736920a18328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 25/30] fix: the saved mute and solo state of a layer was not
 loaded

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 5698e63..32050e3 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -109,8 +109,8 @@ class SpecLayer(object):
         self._cached_implied_children = {}
         self._name = UNTITLED
         self._layer_idx = 0
-        self.mute = False
-        self.solo = False
+        self.mute = layer_data.get(SAVE_KEY.MUTE, False)
+        self.solo = layer_data.get(SAVE_KEY.SOLO, False)
         self.filepath = layer_data.get(SAVE_KEY.FILEPATH)
         self.real_path = layer_data.get(SAVE_KEY.REAL_PATH)
         self.cwd = layer_data.get(SAVE_KEY.CWD)
-- 
2.43.0


From 7c68f1272fb46aabf6a9c459e723842a99c7ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 26/30] fix: graphs loaded at the same clock reading replaced
 each other in a session

---
 nxt/session.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 06d3344..aa19941 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -37,9 +37,17 @@ class Session(object):
         :return: New graph object.
         """
         new_graph = Stage(name=self.get_unused_graph_name('untitled'))
-        self._loaded_files[new_graph.uid] = new_graph
+        self._track_stage(new_graph)
         return new_graph
 
+    def _track_stage(self, stage):
+        """Adds the stage to the loaded files. Uids are read off the clock, so
+        it is made sure here that a graph never replaces another.
+        """
+        while stage.uid in self._loaded_files:
+            stage.uid += 1
+        self._loaded_files[stage.uid] = stage
+
     def get_unused_graph_name(self, name):
         """Used by new_file() to make sure that any new graph created won't
         conflict with the names of currently open graphs.
@@ -82,7 +90,7 @@ class Session(object):
         except IOError:
             logger.exception('Failed to open: "{}"'.format(filepath))
             raise
-        self._loaded_files[new_stage.uid] = new_stage
+        self._track_stage(new_stage)
         return new_stage
 
     def unload_file(self, uid):
-- 
2.43.0


From 441efdc92ad36ce1d61fa136b59e551fba32bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 27/30] fix: an rpc server that could not be told to stop was
 left running

---
 nxt/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index aa19941..f97c188 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -386,8 +386,9 @@ class RPCServerProcess(object):
         try:
             proxy = NxtClient()
             proxy.kill()
-        except Exception as e:
-            if getattr(e, 'errno', -1) == 10061 and self.terminal:
+        except Exception:
+            # Connection refused has a different errno on every platform
+            if self.terminal:
                 try:
                     logger.info('Telling rpc server to shutdown...')
                     proxy = NxtClient()
-- 
2.43.0


From ba9e3f7e7e581fa68ec67deffc0f74f06963e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:05 +0000
Subject: [PATCH 28/30] fix: the name of a new graph was not set, so new graphs
 shared one name

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 4691e84..20da8e5 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -148,7 +148,7 @@ class Stage:
         if layer_data:
             self.load_from_file(layer_data)
         else:
-            self.new_layer(0, {'name': name})
+            self.new_layer(0, {SAVE_KEY.ALIAS: name})
 
     @property
     def next_node(self):
-- 
2.43.0


From 5688b559a51d8c5c52b0757f995c84b0df6aad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:18 +0000
Subject: [PATCH 29/30] fix: end the innermost run of a node that is entered
 again

Exit times were given to the earliest open entry, so a node executed from
its own code failed with a TypeError when its run time was reported.
---
 nxt/nxt_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 32050e3..c92a6c3 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1024,7 +1024,8 @@ class CacheLayer(SpecLayer):
             node_runs = self.node_time_map[node_path]
         except IndexError:
             raise IndexError('No start time set for {}'.format(node_path))
-        for run_time in node_runs:
+        # A node can be entered again before it exits, the innermost run ends
+        for run_time in reversed(node_runs):
             if run_time[1] is None:
                 run_time.pop(1)
                 run_time += [t]
-- 
2.43.0


From 21a33471777f78c0ce0d38505d624435f9b26092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:00 +0000
Subject: [PATCH 30/30] fix: a node that executes other nodes goes on as itself
 afterwards

After execute() in the code of a node, self and the reported path and lines
were those of the executed node, so attributes set afterwards were lost.
---
 nxt/stage.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 20da8e5..c353aef 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4119,6 +4119,10 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     # Convert the compute string to a code object for running in console
     _code, lines = stage.get_node_code(rt_node, runtime_layer, custom_code)
     good_keys = list(graph_globals.keys())
+    # Code of another node may be executing this one
+    nested = runtime_layer.running
+    outer = (console.node_path, console.running_lines,
+             graph_globals.get('self'))
     console.node_path = rt_path
     console.running_lines = lines
     console.globals['self'] = frame_node
@@ -4129,12 +4133,15 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except GraphError:
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
-        runtime_layer.running = False
         raise
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
-    runtime_layer.running = False
+    finally:
+        runtime_layer.running = nested
+        if nested:
+            console.node_path, console.running_lines = outer[:2]
+            console.globals['self'] = outer[2]
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-- 
2.43.0

