From 06b26268e238c45408977001d64a6a32cb42e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 01/30] fix: copied nodes share child storage with the original
 node

---
 src/node/behaviors/storage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/node/behaviors/storage.py b/src/node/behaviors/storage.py
index e8f3ec1..ae603ca 100644
--- a/src/node/behaviors/storage.py
+++ b/src/node/behaviors/storage.py
@@ -6,6 +6,7 @@ from odict import odict
 from plumber import Behavior
 from plumber import default
 from plumber import override
+from plumber import plumbifexists
 from zope.interface import implementer
 
 
@@ -42,6 +43,13 @@ class DictStorage(Storage):
     def storage(self):
         return dict()
 
+    @plumbifexists
+    def copy(_next, self):
+        new = _next(self)
+        # the copy needs its own storage
+        new._storage = self.storage.copy()
+        return new
+
 
 @implementer(IOrdered)
 class OdictStorage(Storage):
@@ -50,3 +58,10 @@ class OdictStorage(Storage):
     @instance_property
     def storage(self):
         return odict()
+
+    @plumbifexists
+    def copy(_next, self):
+        new = _next(self)
+        # the copy needs its own storage
+        new._storage = self.storage.copy()
+        return new
-- 
2.43.0


From a475724ba8e117eb500ec0fda5ab20bf8d8ee621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 02/30] fix: falsy and unset uuids are not handled consistently
 in node index

---
 src/node/behaviors/reference.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..0052aa3 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -10,6 +10,10 @@ from zope.interface.common.mapping import IReadMapping
 import uuid
 
 
+def _iuuid(uuid):
+    return int(uuid) if uuid is not None else None
+
+
 @implementer(IReadMapping)
 class NodeIndex(object):
 
@@ -73,11 +77,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = _iuuid(uuid)
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = _iuuid(self._uuid)
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
@@ -94,7 +98,7 @@ class Reference(Behavior):
 
     @default
     def _to_delete(self):
-        todel = [int(self.uuid)]
+        todel = [_iuuid(self.uuid)]
         for childkey in self:
             try:
                 todel += self[childkey]._to_delete()
@@ -108,7 +112,7 @@ class Reference(Behavior):
     def _index_nodes(self):
         for node in self.values():
             try:
-                uuid = int(node.uuid)
+                uuid = _iuuid(node.uuid)
             except AttributeError:
                 # non-Node values are a dead end, no magic for them
                 continue
-- 
2.43.0


From 75d46451951386997b63399a04aa05c219eb66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 03/30] fix: nodes below added node keep using a separate index

---
 src/node/behaviors/reference.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 0052aa3..d370cb3 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -50,9 +50,12 @@ class Reference(Behavior):
                     raise ValueError('Node with uuid already exists')
             except StopIteration:
                 pass
-            self._index.update(val._index)
-            val._index = self._index
         _next(self, key, val)
+        if INode.providedBy(val):
+            # all nodes of the added subtree share the index of this tree
+            self._index[_iuuid(val.uuid)] = val
+            val._index = self._index
+            val._index_nodes()
 
     @plumb
     def __delitem__(_next, self, key):
-- 
2.43.0


From 84d4b90f06023b2dd1680eba89f5900e68cf5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 04/30] fix: adding a leaf replaces another node with same uuid
 in index

---
 src/node/behaviors/reference.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index d370cb3..c9c8256 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -43,13 +43,16 @@ class Reference(Behavior):
     @plumb
     def __setitem__(_next, self, key, val):
         if INode.providedBy(val):
+            index = val._index
             try:
                 next(val.iterkeys())
                 keys = set(self._index.keys())
-                if keys.intersection(val._index.keys()):
+                if keys.intersection(index.keys()):
                     raise ValueError('Node with uuid already exists')
             except StopIteration:
-                pass
+                # a leaf can be set again, but it must not hide another node
+                if self._index.get(_iuuid(val.uuid), val) is not val:
+                    raise ValueError('Node with uuid already exists')
         _next(self, key, val)
         if INode.providedBy(val):
             # all nodes of the added subtree share the index of this tree
-- 
2.43.0


From c2de31fe2bf061a2d07104459c8c2199b17314a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 05/30] fix: removed nodes keep using the index of the tree
 they were removed from

---
 src/node/behaviors/reference.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index c9c8256..e397faa 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -64,10 +64,8 @@ class Reference(Behavior):
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
-        if hasattr(todel, '_to_delete'):
-            for iuuid in todel._to_delete():
-                del self._index[iuuid]
         _next(self, key)
+        self._unindex(todel)
 
     @plumb
     def detach(_next, self, key):
@@ -114,6 +112,17 @@ class Reference(Behavior):
                 continue
         return todel
 
+    @default
+    def _unindex(self, node):
+        if not hasattr(node, '_to_delete'):
+            return
+        for iuuid in node._to_delete():
+            del self._index[iuuid]
+        # removed subtree must not use the index of this tree any longer
+        if node._index is self._index:
+            node._index = {_iuuid(node.uuid): node}
+            node._index_nodes()
+
     @default
     def _index_nodes(self):
         for node in self.values():
-- 
2.43.0


From 057fd7e3134f86530363499841fe20c1f74eac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 06/30] fix: replaced nodes remain in node index

---
 src/node/behaviors/reference.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index e397faa..025fb6b 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -53,7 +53,11 @@ class Reference(Behavior):
                 # a leaf can be set again, but it must not hide another node
                 if self._index.get(_iuuid(val.uuid), val) is not val:
                     raise ValueError('Node with uuid already exists')
+        storage = getattr(self, 'storage', None)
+        replaced = storage.get(key) if storage is not None else None
         _next(self, key, val)
+        if replaced is not val:
+            self._unindex(replaced)
         if INode.providedBy(val):
             # all nodes of the added subtree share the index of this tree
             self._index[_iuuid(val.uuid)] = val
@@ -117,7 +121,7 @@ class Reference(Behavior):
         if not hasattr(node, '_to_delete'):
             return
         for iuuid in node._to_delete():
-            del self._index[iuuid]
+            self._index.pop(iuuid, None)
         # removed subtree must not use the index of this tree any longer
         if node._index is self._index:
             node._index = {_iuuid(node.uuid): node}
-- 
2.43.0


From 04a1a694d0da5624f6f8b8253d30203f910b7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 07/30] fix: inserting a node with name of existing child
 corrupts storage

---
 src/node/behaviors/order.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..24c521a 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -57,3 +57,6 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
+        # inserting an existing key would corrupt the order of the storage
+        if node.name in self.storage:
+            raise KeyError('Child with name of given node already exists.')
-- 
2.43.0


From 4f3a74205b24b258e58b1b418fe9c0079c1615dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 08/30] fix: inserted node is not validated if no children
 exist yet

---
 src/node/behaviors/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 24c521a..6ccfe4f 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -14,6 +14,7 @@ class Order(Behavior):
 
     @override
     def insertfirst(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
             self[newnode.name] = newnode
@@ -23,6 +24,7 @@ class Order(Behavior):
 
     @override
     def insertlast(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
             self[newnode.name] = newnode
-- 
2.43.0


From 916bb75a2aa459f7c122a56eef5fac4f7164b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 09/30] fix: rejected node stays in storage after insertbefore
 and insertafter

---
 src/node/behaviors/order.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 6ccfe4f..f81d0aa 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -39,7 +39,7 @@ class Order(Behavior):
             self.storage.insertbefore(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
 
     @override
     def insertafter(self, newnode, refnode):
@@ -48,7 +48,17 @@ class Order(Behavior):
             self.storage.insertafter(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
+
+    @override
+    def _setinserted(self, newnode):
+        name = newnode.name
+        try:
+            self[name] = newnode
+        except Exception:
+            # do not keep a rejected node
+            del self.storage[name]
+            raise
 
     @override
     def _validateinsertion(self, node):
-- 
2.43.0


From be228d7949eaeea2bb673e13644485601ab120fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 10/30] fix: suffix aliaser without suffix unaliases to empty
 key

---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From 79b707e99f6121b6e5d6833e6e1f8b7bc230aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 11/30] fix: failing detach leaves lifecycle events suppressed

---
 src/node/behaviors/lifecycle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..512b53f 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -50,9 +50,12 @@ class Lifecycle(Behavior):
 
     @plumb
     def detach(_next, self, key):
+        notify_suppress = self._notify_suppress
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = notify_suppress
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From 061b4af696f610fb293f71567d119df1972ae6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 12/30] fix: events can only be dispatched in the thread
 importing the module

---
 src/node/behaviors/events.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..b89cc66 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -37,6 +37,13 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _suppress_data(threading.local):
+    suppress = 0
+
+    def __init__(self):
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -61,9 +68,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _suppress_data()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -88,8 +93,13 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _attribute_subscribers_data(threading.local):
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _attribute_subscribers_data()
 
 
 @contextmanager
-- 
2.43.0


From 7fc5c6351f1de3823268e46ad188b872dfc1a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 13/30] fix: events are suppressed without entering the context
 manager

---
 src/node/behaviors/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index b89cc66..0bdbaea 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -74,11 +74,11 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
         self.events = events
 
     def __enter__(self):
+        for event in self.events:
+            self.data.events.append(event)
         self.data.suppress += 1
         return self.data.suppress
 
-- 
2.43.0


From 0573f3758b7e9f22c39e08b29f43e525aac9a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 14/30] fix: unbinding a subscriber while dispatching skips the
 next subscriber

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 0bdbaea..36fd0a9 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -314,5 +314,5 @@ class Events(Behavior):
                 return
         for subscriber in attribute_subscribers:
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        for subscriber in list(self.__subscribers__.get(event, list())):
             subscriber(*args, **kw)
-- 
2.43.0


From 5c822b2e9310a73540198de75c57f5be6cbb029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 15/30] fix: event attributes of subclass get known as events
 of base class

---
 src/node/behaviors/events.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 36fd0a9..a0744b7 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,8 +24,9 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
+    if '__events__' not in cls.__dict__:
+        # never share the list with base classes
+        cls.__events__ = list(getattr(cls, '__events__', ()))
     events = cls.__events__
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
-- 
2.43.0


From 7e7cd74d2329fb70782612bd421144c17161d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 16/30] fix: classes using events can not be instantiated with
 arguments

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index a0744b7..63becfc 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -247,7 +247,7 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From 645fd0277ecb13682d5ca19d69abc47a211d9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 17/30] fix: fallback lookup fails outside the thread importing
 the module

---
 src/node/behaviors/fallback.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..a643ec2 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,12 @@ import threading
 _marker = dict()
 
 
+class _processing_data(threading.local):
+    processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _processing_data()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From e52e665544ceca4b27e6adde9976f74afd042ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 18/30] fix: attribute access to missing children raises
 KeyError

---
 src/node/behaviors/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..b323145 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -134,7 +134,10 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0


From 83bfc0f33b5326c4459cca6af60b00b23998de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 19/30] fix: setting uuids recursively fails on non node
 children

---
 src/node/behaviors/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index b323145..2e10cc0 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -211,4 +211,5 @@ class UUIDAware(Behavior):
                 node.uuid = self.uuid_factory()
         if recursiv:
             for child in node.values():
-                self.set_uuid_for(child, override, recursiv)
+                if INode.providedBy(child):
+                    self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From ef6dfbbbb4c0c8fed06e941a06f590b843719af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 20/30] fix: bytes are not decoded by unicode aware nodes in
 python 3

---
 src/node/behaviors/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 2e10cc0..015be94 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -160,21 +160,21 @@ class UnicodeAware(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         _next(self, key)
 
     @plumb
     def __getitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         return _next(self, key)
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
-        if isinstance(val, str):
+        if isinstance(val, bytes):
             val = decode(val)
         return _next(self, key, val)
 
-- 
2.43.0


From 9435b244275631115941cf230fdbd4fd86d8349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 21/30] fix: nodespaces fail on setting and deleting children
 with non string keys

---
 src/node/behaviors/nodespace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/nodespace.py b/src/node/behaviors/nodespace.py
index 9169929..2a4144a 100644
--- a/src/node/behaviors/nodespace.py
+++ b/src/node/behaviors/nodespace.py
@@ -41,7 +41,9 @@ class Nodespaces(Behavior):
     @plumb
     def __setitem__(_next, self, key, val):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             val.__name__ = key
@@ -54,7 +56,9 @@ class Nodespaces(Behavior):
     @plumb
     def __delitem__(_next, self, key):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             del self.nodespaces[key]
-- 
2.43.0


From b7d4bc5cdfcdb03d2c2858236fdbe96326d43ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 22/30] fix: values of dicts are not deserialized

---
 src/node/serializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..10df873 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -193,8 +193,10 @@ class NodeDecoder(object):
                 elif isinstance(node, cls):
                     callback(self, node, node_data)
             return node
-        # no custom deserialization required
-        return data
+        # decode data from dict
+        return {
+            key: self.decode(val, parent=parent) for key, val in data.items()
+        }
 
 
 ###############################################################################
-- 
2.43.0


From 305569e22aa543546e3fd9185087efb366c4f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 23/30] fix: deserializing fails if module of class is not
 imported yet

---
 src/node/serializer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 10df873..38944a4 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -2,6 +2,7 @@
 from inspect import isclass
 from inspect import isfunction
 from inspect import ismethod
+from inspect import ismodule
 from node.compat import IS_PY2
 from node.compat import STR_TYPE
 from node.interfaces import IAttributes
@@ -145,8 +146,13 @@ class NodeDecoder(object):
         """Resolve dotted name to object.
         """
         components = name.split('.')
-        ob = __import__(components[0])
+        path = components[0]
+        ob = __import__(path)
         for comp in components[1:]:
+            path = '.'.join([path, comp])
+            if ismodule(ob) and not hasattr(ob, comp):
+                # submodule may not have been imported yet
+                __import__(path)
             ob = getattr(ob, comp)
         return ob
 
-- 
2.43.0


From f0a76372cf2dbb935a5e54f5d5cb98c67d5eba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 24/30] fix: concurrent threads may create different locks for
 the same tree

---
 src/node/locking.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..61c044f 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -1,14 +1,20 @@
 # -*- coding: utf-8 -*-
+from threading import Lock
 from threading import RLock
 
 
+_creation_lock = Lock()
+
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
-        self.lock = getattr(root, '_treelock', None)
-        if self.lock is None:
-            self.lock = root._treelock = RLock()
+        with _creation_lock:
+            # concurrent threads must end up with the same lock
+            self.lock = getattr(root, '_treelock', None)
+            if self.lock is None:
+                self.lock = root._treelock = RLock()
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From beaf2eccab4201c644215d96cc82300f814d6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 25/30] fix: missing fallback child stops fallback lookup

---
 src/node/behaviors/fallback.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index a643ec2..39d94c1 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from node.interfaces import IFallback
+from node.interfaces import INode
 from plumber import Behavior
 from plumber import default
 from plumber import plumb
@@ -34,7 +35,11 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    fallback = parent.get(parent.fallback_key, _marker)
+    if not INode.providedBy(fallback):
+        # no usable fallback here, keep on searching
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From 3f54bc126a34ef0c5666021cd47ff6fdaacaa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 26/30] fix: fallback lookup fails on children of non node
 values

---
 src/node/behaviors/fallback.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 39d94c1..b2dffa7 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -45,13 +45,15 @@ def _to_root(node, path, visited):
 def _to_leaf(node, path, visited):
     """Traverse children, searching for fallback key.
     """
-    current = node
-    for name in path[len(current.path):]:
-        new_current = current.get(name, _marker)
-        if new_current is _marker:
+    current = value = node
+    for name in path[len(node.path):]:
+        # only nodes can contain children
+        value = current.get(name, _marker) if value is current else _marker
+        if value is _marker:
             return _to_root(current, path=path, visited=visited)
-        current = new_current
-    return current
+        if INode.providedBy(value):
+            current = value
+    return value
 
 
 @implementer(IFallback)
-- 
2.43.0


From 9531064312478d704dd19798450d9e4f7f6be4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 27/30] fix: empty dict aliaser hides all keys instead of
 exposing them

---
 src/node/behaviors/alias.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index 0dcb1f5..5031911 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -126,7 +126,7 @@ class Alias(Behavior):
 
     @plumb
     def __getitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -137,7 +137,7 @@ class Alias(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -148,7 +148,7 @@ class Alias(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -161,7 +161,7 @@ class Alias(Behavior):
     def __iter__(_next, self):
         for key in _next(self):
             try:
-                if self.aliaser:
+                if self.aliaser is not None:
                     yield self.aliaser.alias(key)
                 else:
                     yield key
-- 
2.43.0


From ddfe4f0fa70084e495b83c158af52a5611e92642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 28/30] fix: invalidating all keys of a cache invalidates all
 children

---
 src/node/behaviors/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..1dbab06 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -86,8 +86,8 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            for cached_key in _keys(cache):
+                del cache[cached_key]
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From d1919dfcb9c918470f26904b625ab33d75271493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 29/30] fix: decode node names which are no strings on
 deserialization

The name of a node is encoded like any other value, an UUID used as name
came back as its marker text.
---
 src/node/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 38944a4..1e470aa 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -162,7 +162,7 @@ class NodeDecoder(object):
         """
         factory = self.resolve(data['class'])
         kw = self.decode(data.get('kw', dict()))
-        name = data['name']
+        name = self.decode(data['name'])
         if parent is not None:
             node = parent[name] = factory(**kw)
         else:
-- 
2.43.0


From 6d67c5cb897f921b4dd31332bef59605a3a851e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 30/30] fix: changing the list of suppressed events breaks the
 suppression state

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 63becfc..1f7881f 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -75,7 +75,8 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        self.events = events
+        # the given list may be changed while suppressing
+        self.events = list(events)
 
     def __enter__(self):
         for event in self.events:
-- 
2.43.0

