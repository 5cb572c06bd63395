From 90d500c6ddf5cafe7891df112c53c3bad14175fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 01/34] fix: Cache.invalidate without key passed last cached
 key to the next invalidate

The loop over the cached keys rebound the key parameter, so instead of
invalidating all children only the one cached last was invalidated.
---
 src/node/behaviors/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..1dbab06 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -86,8 +86,8 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            for cached_key in _keys(cache):
+                del cache[cached_key]
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From 2aaf2547880d165adca9b1b92acab1be6d8e559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 02/34] fix: evict child from Cache after it was modified as
 well

Behaviors further down the plumbing chain may read the child while it gets
set or deleted, e.g. Lifecycle and Reference do so when deleting. This put
the outdated child back to the cache, which then served it forever.
---
 src/node/behaviors/cache.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 1dbab06..cbe21e1 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -67,6 +67,13 @@ class VolatileStorageInvalidate(Behavior):
                 del storage[key]
 
 
+def _evict(cache, key):
+    try:
+        del cache[key]
+    except KeyError:
+        pass
+
+
 @implementer(ICache)
 class Cache(Behavior):
 
@@ -105,7 +112,11 @@ class Cache(Behavior):
             del self.cache[key]
         except KeyError:
             pass
-        _next(self, key, value)
+        try:
+            _next(self, key, value)
+        finally:
+            # reading the child down the plumbing chain populates the cache
+            _evict(self.cache, key)
 
     @plumb
     def __delitem__(_next, self, key):
@@ -113,7 +124,11 @@ class Cache(Behavior):
             del self.cache[key]
         except KeyError:
             pass
-        _next(self, key)
+        try:
+            _next(self, key)
+        finally:
+            # reading the child down the plumbing chain populates the cache
+            _evict(self.cache, key)
 
     @plumb
     def __iter__(_next, self):
-- 
2.43.0


From b2d9d978d968da11c220e2c884f9b64d27c64966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 03/34] fix: SuffixAliaser.unalias returned an empty key if no
 suffix is set

---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From 30cf2c0f2cd88162dde939a4aeea545b72654511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 04/34] fix: Lifecycle.detach kept event notification
 suppressed if detaching failed

---
 src/node/behaviors/lifecycle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..512b53f 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -50,9 +50,12 @@ class Lifecycle(Behavior):
 
     @plumb
     def detach(_next, self, key):
+        notify_suppress = self._notify_suppress
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = notify_suppress
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From 51fee8a0c076af5280347f2b781a528e2473aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 05/34] fix: thread local state of events and fallback was
 missing in other threads

Attributes set on a threading.local instance at import time exist in the
importing thread only. Dispatching events and looking up fallbacks raised
AttributeError in every other thread.
---
 src/node/behaviors/events.py   | 24 +++++++++++++++++++-----
 src/node/behaviors/fallback.py | 11 +++++++++--
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..ca5ce58 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -37,6 +37,15 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _suppress_data(threading.local):
+    """Suppress state, initialized in every thread.
+    """
+
+    def __init__(self):
+        self.suppress = 0
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -61,9 +70,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _suppress_data()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -88,8 +95,15 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _subscribers_data(threading.local):
+    """Injected subscribers, initialized in every thread.
+    """
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _subscribers_data()
 
 
 @contextmanager
diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..6ee5dd9 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,16 @@ import threading
 _marker = dict()
 
 
+class _processing_data(threading.local):
+    """Processing state, initialized in every thread.
+    """
+
+    def __init__(self):
+        self.processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _processing_data()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From 5b6a91f6040c1a63ebfbda6a6aebc53d2ebec42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 06/34] fix: Events.dispatch skipped subscribers if a
 subscriber unbinds itself

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index ca5ce58..3984cda 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -318,5 +318,6 @@ class Events(Behavior):
                 return
         for subscriber in attribute_subscribers:
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        # subscribers may be bound or unbound by the subscribers called
+        for subscriber in list(self.__subscribers__.get(event, list())):
             subscriber(*args, **kw)
-- 
2.43.0


From 080da16cfd9c24f21a0019485db1230d26775705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 07/34] fix: event attributes of a subclass were registered on
 its base class

---
 src/node/behaviors/events.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 3984cda..efee6d0 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,8 +24,9 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
+    if '__events__' not in cls.__dict__:
+        # inherit events, but never share the list with the base class
+        cls.__events__ = list(getattr(cls, '__events__', ()))
     events = cls.__events__
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
-- 
2.43.0


From 8f8fa39d0b60cd4c515ceb525081c1e909544d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 08/34] fix: Events could not be used on classes with
 constructor arguments

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index efee6d0..7d3eb52 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -251,7 +251,8 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        # arguments are handled by ``__init__``, ``object`` refuses them
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From 93d277fbe998aa8780bf221b747dcf2056be5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 09/34] fix: suppress_events suppressed events without being
 entered

Creating the context manager without entering it suppressed the events
within the next entered one, and entering it a second time failed.
---
 src/node/behaviors/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 7d3eb52..784d08d 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -77,12 +77,12 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
         self.events = events
 
     def __enter__(self):
         self.data.suppress += 1
+        for event in self.events:
+            self.data.events.append(event)
         return self.data.suppress
 
     def __exit__(self, type_, value, traceback):
-- 
2.43.0


From 63ea1e87f44285e6f06bbace8d01097bbf8a7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 10/34] fix: Adopt did not revert adoption for all kinds of
 failures

Setting a child with an unhashable key, or on a read-only node raising
NotImplementedError, left the refused child with a wrong location.
---
 src/node/behaviors/common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..85e7d0d 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,8 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (AttributeError, KeyError, ValueError):
-            # XXX: In what other cases do we want to revert adoption?
+        except Exception:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
-- 
2.43.0


From f0ec362ac239167042b63a3c54ef774ce46264e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 11/34] fix: GetattrChildren raised KeyError for unknown
 attributes

This broke hasattr, getattr with default, copy and pickle on such nodes.
---
 src/node/behaviors/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 85e7d0d..1a3a0db 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -133,7 +133,10 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0


From c4a691decc14045b8a0eee7d8b50d67c24d89326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 12/34] fix: inserting a node with an already contained name
 corrupted node order

odict does not expect insertbefore and insertafter to be called with a
contained key. The linked list became cyclic and iteration never ended.
---
 src/node/behaviors/order.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..7a7f5e8 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -57,3 +57,6 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
+        # inserting a key twice would break the linked list of the storage
+        if node.name in self.storage:
+            raise KeyError('Given node name already contained in node.')
-- 
2.43.0


From 601d457d1a95ce5b8d20fbbe019b4a5fa629f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 13/34] fix: a node refused while inserting it remained in node
 storage

---
 src/node/behaviors/order.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 7a7f5e8..ca56819 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -37,7 +37,7 @@ class Order(Behavior):
             self.storage.insertbefore(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
 
     @override
     def insertafter(self, newnode, refnode):
@@ -46,7 +46,16 @@ class Order(Behavior):
             self.storage.insertafter(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
+
+    @override
+    def _setinserted(self, newnode):
+        try:
+            self[newnode.name] = newnode
+        except Exception:
+            # refused by a behavior, e.g. because of duplicate uuids
+            del self.storage[newnode.name]
+            raise
 
     @override
     def _validateinsertion(self, node):
-- 
2.43.0


From 8e27074ea3926a34b88c093f696f9dc2dd9f5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 14/34] fix: nodes added below an attached subtree were missing
 in Reference index

Only the root of a subtree got the index of the tree it was attached to. Its
descendants kept the former index, and so did all nodes added there later.
---
 src/node/behaviors/reference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..d95c390 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -47,6 +47,9 @@ class Reference(Behavior):
             except StopIteration:
                 pass
             self._index.update(val._index)
+            # nodes contained in val must share the index of this tree as well
+            for node in list(val._index.values()):
+                node._index = self._index
             val._index = self._index
         _next(self, key, val)
 
-- 
2.43.0


From f67fedb99e525988c58283f7d8b378507f9c4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 15/34] fix: Reference accepted childless nodes with an already
 contained uuid

Adding the same node twice is documented to fail, but the check was skipped
for nodes without children.
---
 src/node/behaviors/reference.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index d95c390..374bc8c 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -39,13 +39,9 @@ class Reference(Behavior):
     @plumb
     def __setitem__(_next, self, key, val):
         if INode.providedBy(val):
-            try:
-                next(val.iterkeys())
-                keys = set(self._index.keys())
-                if keys.intersection(val._index.keys()):
-                    raise ValueError('Node with uuid already exists')
-            except StopIteration:
-                pass
+            keys = set(self._index.keys())
+            if keys.intersection(val._index.keys()):
+                raise ValueError('Node with uuid already exists')
             self._index.update(val._index)
             # nodes contained in val must share the index of this tree as well
             for node in list(val._index.values()):
-- 
2.43.0


From 626253d84505479198210cd33959cf3c4c525df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 16/34] fix: deleted nodes kept the Reference index of the tree
 they were deleted from

Such a node could not be found when added to the tree again, and adding it
to another tree merged the whole index of the former tree.
---
 src/node/behaviors/reference.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 374bc8c..23271bf 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -53,10 +53,15 @@ class Reference(Behavior):
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
+        removed = dict()
         if hasattr(todel, '_to_delete'):
             for iuuid in todel._to_delete():
+                removed[iuuid] = self._index[iuuid]
                 del self._index[iuuid]
         _next(self, key)
+        # the deleted nodes are a tree on their own now
+        for node in removed.values():
+            node._index = removed
 
     @plumb
     def detach(_next, self, key):
-- 
2.43.0


From 0cdea7e773bfc1d18fd62ec18095206835a46016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 17/34] fix: Reference index was left changed if setting or
 deleting a child failed

---
 src/node/behaviors/reference.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 23271bf..38069be 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -42,11 +42,21 @@ class Reference(Behavior):
             keys = set(self._index.keys())
             if keys.intersection(val._index.keys()):
                 raise ValueError('Node with uuid already exists')
+            val_index = val._index
             self._index.update(val._index)
             # nodes contained in val must share the index of this tree as well
             for node in list(val._index.values()):
                 node._index = self._index
             val._index = self._index
+            try:
+                _next(self, key, val)
+            except Exception:
+                for iuuid, node in val_index.items():
+                    del self._index[iuuid]
+                    node._index = val_index
+                val._index = val_index
+                raise
+            return
         _next(self, key, val)
 
     @plumb
@@ -58,7 +68,11 @@ class Reference(Behavior):
             for iuuid in todel._to_delete():
                 removed[iuuid] = self._index[iuuid]
                 del self._index[iuuid]
-        _next(self, key)
+        try:
+            _next(self, key)
+        except Exception:
+            self._index.update(removed)
+            raise
         # the deleted nodes are a tree on their own now
         for node in removed.values():
             node._index = removed
-- 
2.43.0


From 10a84eed40bf96af54e9f64822b6955bf1107c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 18/34] fix: nil uuid was indexed as None by Reference

---
 src/node/behaviors/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 38069be..b5fcc96 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -91,11 +91,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = int(uuid) if uuid is not None else None
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = int(self._uuid) if self._uuid is not None else None
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
-- 
2.43.0


From 56be941ecf57d441eb5b037febad3a9994527f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 19/34] fix: Reference.detach failed for non referencing
 children after deleting them

---
 src/node/behaviors/reference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index b5fcc96..4fd4f95 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -80,8 +80,10 @@ class Reference(Behavior):
     @plumb
     def detach(_next, self, key):
         node = _next(self, key)
-        node._index = {int(node.uuid): node}
-        node._index_nodes()
+        # non-Node values and non referencing children have no index
+        if hasattr(node, '_index_nodes'):
+            node._index = {int(node.uuid): node}
+            node._index_nodes()
         return node
 
     @property
-- 
2.43.0


From af8587d30bfe07a4ef0d544908b193bf607e8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 20/34] fix: UUIDAware.deepcopy failed on nodes containing
 non-Node children

---
 src/node/behaviors/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 1a3a0db..6309ca3 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -210,4 +210,6 @@ class UUIDAware(Behavior):
                 node.uuid = self.uuid_factory()
         if recursiv:
             for child in node.values():
-                self.set_uuid_for(child, override, recursiv)
+                # non-Node values have no uuid and no children
+                if INode.providedBy(child):
+                    self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From b6aea8ebaccacba4536b71b5c1595417c9eca4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 21/34] fix: Nodespaces refused to set and delete children with
 non string keys

---
 src/node/behaviors/nodespace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/nodespace.py b/src/node/behaviors/nodespace.py
index 9169929..2a4144a 100644
--- a/src/node/behaviors/nodespace.py
+++ b/src/node/behaviors/nodespace.py
@@ -41,7 +41,9 @@ class Nodespaces(Behavior):
     @plumb
     def __setitem__(_next, self, key, val):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             val.__name__ = key
@@ -54,7 +56,9 @@ class Nodespaces(Behavior):
     @plumb
     def __delitem__(_next, self, key):
         # blend in our nodespaces as children, with name __<name>__
-        if key.startswith('__') and key.endswith('__'):
+        if isinstance(key, STR_TYPE) \
+          and key.startswith('__') \
+          and key.endswith('__'):
             # a reserved child key mapped to the nodespace behind
             # nodespaces[key], nodespaces is an odict
             del self.nodespaces[key]
-- 
2.43.0


From 2f87727255b798329a3f2ded108758bc66563c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 22/34] fix: UnicodeAware did not decode bytes on python 3

---
 src/node/behaviors/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 6309ca3..170be2a 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -159,21 +159,21 @@ class UnicodeAware(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         _next(self, key)
 
     @plumb
     def __getitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         return _next(self, key)
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
-        if isinstance(val, str):
+        if isinstance(val, bytes):
             val = decode(val)
         return _next(self, key, val)
 
-- 
2.43.0


From 5b557c901231c810b4642b620e36d9e6861a606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 23/34] fix: an empty strict DictAliaser did not whitelist any
 key

An empty DictAliaser is false in boolean context and was treated like no
aliaser, making all children available.
---
 src/node/behaviors/alias.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index 0dcb1f5..5031911 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -126,7 +126,7 @@ class Alias(Behavior):
 
     @plumb
     def __getitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -137,7 +137,7 @@ class Alias(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -148,7 +148,7 @@ class Alias(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -161,7 +161,7 @@ class Alias(Behavior):
     def __iter__(_next, self):
         for key in _next(self):
             try:
-                if self.aliaser:
+                if self.aliaser is not None:
                     yield self.aliaser.alias(key)
                 else:
                     yield key
-- 
2.43.0


From 1b10c016d961a4edf46dacd8b9938f05c85da85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 24/34] fix: values nested in dicts were not deserialized

---
 src/node/serializer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..a4df5b7 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -193,8 +193,11 @@ class NodeDecoder(object):
                 elif isinstance(node, cls):
                     callback(self, node, node_data)
             return node
-        # no custom deserialization required
-        return data
+        # decode data from dict
+        return dict([
+            (key, self.decode(value, parent=parent))
+            for key, value in data.items()
+        ])
 
 
 ###############################################################################
-- 
2.43.0


From bb43a1c7ccd6da035e52edf9cea1d3bddb4c94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 25/34] fix: threads locking a tree for the first time could
 get different locks

---
 src/node/locking.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..9963fc5 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -2,13 +2,18 @@
 from threading import RLock
 
 
+# guards creation of tree locks
+_creation_lock = RLock()
+
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
-        self.lock = getattr(root, '_treelock', None)
-        if self.lock is None:
-            self.lock = root._treelock = RLock()
+        with _creation_lock:
+            self.lock = getattr(root, '_treelock', None)
+            if self.lock is None:
+                self.lock = root._treelock = RLock()
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From 4c740621829efc53473667e8ccd10df79a6a9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 26/34] fix: subscribers registered with EventAttribute were
 not notified about deletion

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 784d08d..68e17e0 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -205,7 +205,8 @@ class EventAttribute(object):
         """Delete attribute value.
         """
         del getattr(obj, self.storage)[self.name]
-        obj.dispatch(self.name, UNSET)
+        with _subscribers(self.subscribers):
+            obj.dispatch(self.name, UNSET)
 
     def subscriber(self, func):
         """Event attribute subscriber decorator.
-- 
2.43.0


From cee6ffccb36a4846753fb0f183cb9841b75d7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 27/34] fix: missing fallback child ended fallback lookup with
 KeyError of the fallback key

The lookup continues with the next parent, and if nothing is found the
key asked for is reported.
---
 src/node/behaviors/fallback.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 6ee5dd9..9727e0e 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -38,7 +38,10 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    fallback = parent.get(parent.fallback_key, _marker)
+    if fallback is _marker:
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From 8f9bbba8aeb6ea1388f1790f816ce972836ca352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 28/34] fix: deserializing objects of modules not imported yet
 failed

---
 src/node/serializer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index a4df5b7..84d06d7 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -145,9 +145,16 @@ class NodeDecoder(object):
         """Resolve dotted name to object.
         """
         components = name.split('.')
-        ob = __import__(components[0])
+        path = components[0]
+        ob = __import__(path)
         for comp in components[1:]:
-            ob = getattr(ob, comp)
+            path = '.'.join([path, comp])
+            try:
+                ob = getattr(ob, comp)
+            except AttributeError:
+                # module not imported yet
+                __import__(path)
+                ob = getattr(ob, comp)
         return ob
 
     def node_factory(self, data, parent=None):
-- 
2.43.0


From 3b9cd2f9fcbfa95135336b10d4bea5e51e9aa3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 29/34] fix: nodes of nested classes were serialized with the
 wrong class name

---
 src/node/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 84d06d7..89da30a 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -101,7 +101,7 @@ class NodeEncoder(json.JSONEncoder):
                 [ob.im_class.__module__, ob.im_class.__name__, ob.__name__]
             )
         else:
-            return '.'.join([ob.__module__, ob.__class__.__name__])
+            return self.dotted_name(ob.__class__)
 
     def default(self, ob):
         # serialize UNSET
-- 
2.43.0


From 5c9d474277775f60632fd348f9c5e3af079766ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 30/34] fix: serializing bound methods failed with
 AttributeError in python 3

---
 src/node/serializer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 89da30a..08b4982 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -96,10 +96,12 @@ class NodeEncoder(json.JSONEncoder):
                 [ob.__module__, ob.__name__ if IS_PY2 else ob.__qualname__]
             )
         elif ismethod(ob):
-            # this block is not reached in python 3, ignore missing coverage
-            return '.'.join(
-                [ob.im_class.__module__, ob.im_class.__name__, ob.__name__]
-            )
+            if IS_PY2:
+                cls = ob.im_class
+            else:
+                # bound method, unbound methods are functions in python 3
+                cls = ob.__self__ if isclass(ob.__self__) else type(ob.__self__)
+            return '.'.join([self.dotted_name(cls), ob.__name__])
         else:
             return self.dotted_name(ob.__class__)
 
-- 
2.43.0


From 95fe6dcfc4f8eaf46f74f7e64946de35bc6ad277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 31/34] fix: IAttributes declares attributes_factory as it is
 named by implementers

---
 src/node/interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/interfaces.py b/src/node/interfaces.py
index e41c6eb..2f178ba 100644
--- a/src/node/interfaces.py
+++ b/src/node/interfaces.py
@@ -334,7 +334,7 @@ class IAttributes(Interface):
     """Plumbing behavior to provide attributes on node.
     """
     attrs = Attribute('``INodeAttributes`` implementation.')
-    attrs_factory = Attribute('``INodeAttributes`` implementation class.')
+    attributes_factory = Attribute('``INodeAttributes`` implementation class.')
 
 
 class ILifecycle(Interface):
-- 
2.43.0


From 84b736336044a3d0cc186b6de2aa5186544467dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 32/34] fix: acquire stopped searching at ancestors which are
 false

---
 src/node/behaviors/nodify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index ced1069..b2c96ca 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -71,7 +71,7 @@ class Nodify(FullMapping):
     @override
     def acquire(self, interface):
         node = self.parent
-        while node:
+        while node is not None:
             if (IInterface.providedBy(interface) and
                     interface.providedBy(node)) or \
                     isinstance(node, interface):
-- 
2.43.0


From 597bd6f3407ad7ba065d3b6da91e9bea73e6eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 33/34] fix: insertfirst and insertlast accepted nodes without
 name if there are no children

The validation done by insertbefore and insertafter was skipped, so a node
without a name ended up as child with None as key.
---
 src/node/behaviors/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index ca56819..31d5c81 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -16,6 +16,7 @@ class Order(Behavior):
     def insertfirst(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[0]]
@@ -25,6 +26,7 @@ class Order(Behavior):
     def insertlast(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[-1]]
-- 
2.43.0


From c780a5d680b3958ceed1b97294cb3f32a5fafadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 34/34] fix: representation of attributes without parent fails

---
 src/node/behaviors/attributes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/attributes.py b/src/node/behaviors/attributes.py
index 99389ca..60d625d 100644
--- a/src/node/behaviors/attributes.py
+++ b/src/node/behaviors/attributes.py
@@ -28,9 +28,11 @@ class NodeAttributes(object):
         self._node = parent    # B/C 2011-01-31
 
     def __repr__(self):
-        name = self.parent.name.encode('ascii', 'replace') \
-            if IS_PY2 and isinstance(self.parent.name, unicode) \
-            else str(self.parent.name)
+        # attributes are represented by the name of the node they belong to
+        node = self if self.parent is None else self.parent
+        name = node.name.encode('ascii', 'replace') \
+            if IS_PY2 and isinstance(node.name, unicode) \
+            else str(node.name)
         return '<{} object \'{}\' at {}>'.format(
             self.__class__.__name__,
             name,
-- 
2.43.0

