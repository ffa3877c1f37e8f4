From 4da31ec1090e19b38a97e8ebb8fb73ac45237658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 1/7] fix: keep a sorted list unchanged when a bulk update
 cannot compare values

update() appended the new values to the list of sublists before sorting, so
a TypeError from the sort left them visible to iteration but not to len().
---
 src/sortedcontainers/sortedlist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..5ac4d0c 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,8 +277,7 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists, []) + values
                 values.sort()
                 self._clear()
             else:
@@ -1777,8 +1776,7 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists, []) + values
                 values.sort(key=self._key)
                 self._clear()
             else:
-- 
2.43.0


From cb42803a62caba6293c68a5dd74d94c07a3eeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 2/7] fix: leave set and dict unchanged when a new value cannot
 be compared

SortedSet.add and SortedDict.setdefault stored the value in the set or dict
before the sorted list, so a TypeError from the comparison left a value that
was a member but never iterated.
---
 src/sortedcontainers/sorteddict.py | 2 +-
 src/sortedcontainers/sortedset.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..c6d0422 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -480,8 +480,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..4fb129f 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -335,7 +335,11 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         if value not in _set:
             _set.add(value)
-            self._list.add(value)
+            try:
+                self._list.add(value)
+            except BaseException:
+                _set.remove(value)
+                raise
 
     _add = add
 
-- 
2.43.0


From 34191f9f1565c9a1ea386678d057117b9a91d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 3/7] fix: order the values before changing a sorted set in a
 bulk update

SortedSet.update and symmetric_difference_update changed the set and cleared
the sorted list before sorting, so a TypeError left a set whose members had
all vanished from the sorted list.
---
 src/sortedcontainers/sortedset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 4fb129f..c29f745 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -603,9 +603,12 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.symmetric_difference_update(other)
+        diff = _set.symmetric_difference(other)
+        values = sorted(diff, key=self._key)
+        _set.intersection_update(diff)
+        _set.update(diff)
         _list.clear()
-        _list.update(_set)
+        _list.update(values)
         return self
 
     __ixor__ = symmetric_difference_update
@@ -650,10 +653,10 @@ class SortedSet(MutableSet, Sequence):
         _list = self._list
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
-            _list = self._list
+            values = sorted(_set.union(values), key=self._key)
             _set.update(values)
             _list.clear()
-            _list.update(_set)
+            _list.update(values)
         else:
             _add = self._add
             for value in values:
-- 
2.43.0


From 7515223b6ff444668bf3183031d2c889eb78cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 4/7] fix: order the keys before changing a sorted dict in a
 bulk update

SortedDict.update changed the dict before the sorted list, so an exception
(keys that cannot be compared, or an iterable of pairs that raises part way)
left keys in the dict that were never iterated.
---
 src/sortedcontainers/sorteddict.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index c6d0422..0c1e6d5 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -497,20 +497,18 @@ class SortedDict(dict):
         :param kwargs: keyword arguments mapping
 
         """
-        if not self:
-            dict.update(self, *args, **kwargs)
-            self._list_update(dict.__iter__(self))
-            return
-
         if not kwargs and len(args) == 1 and isinstance(args[0], dict):
             pairs = args[0]
         else:
             pairs = dict(*args, **kwargs)
 
         if (10 * len(pairs)) > len(self):
+            keys = list(dict.__iter__(self))
+            keys.extend(key for key in pairs if key not in self)
+            keys.sort(key=self._key)
             dict.update(self, pairs)
             self._list_clear()
-            self._list_update(dict.__iter__(self))
+            self._list_update(keys)
         else:
             for key in pairs:
                 self._setitem(key, pairs[key])
-- 
2.43.0


From c5ed86cf10cbff8b84624bac5f55408f8ea472e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:33 +0000
Subject: [PATCH 5/7] fix: keep the key function in set - SortedSet

The reflected difference was inherited from collections.abc.Set, which
builds the result without the key function.
---
 src/sortedcontainers/sortedset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index c29f745..e5cd0a4 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -13,7 +13,7 @@ Sorted set implementations:
 
 """
 
-from collections.abc import MutableSet, Sequence, Set
+from collections.abc import Iterable, MutableSet, Sequence, Set
 from itertools import chain
 from operator import eq, ge, gt, le, lt, ne
 from textwrap import dedent
@@ -476,6 +476,12 @@ class SortedSet(MutableSet, Sequence):
 
     __sub__ = difference
 
+    def __rsub__(self, other):
+        if not isinstance(other, Iterable):
+            return NotImplemented
+        diff = set(other).difference(self._set)
+        return self._fromset(diff, key=self._key)
+
     def difference_update(self, *iterables):
         """Remove all values of `iterables` from this sorted set.
 
-- 
2.43.0


From 46552b39da1f4d2268694e18bf75efc7df924468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 6/7] fix: keep the key function in n * SortedKeyList

The reflected repetition was inherited from SortedList, which builds the
result without the key function.
---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 5ac4d0c..795f177 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2425,6 +2425,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From af4cc8df507b9361403dc67b99c1482a3958f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:17 +0000
Subject: [PATCH 7/7] fix: SortedDict() and SortedDict.update() accept a
 keyword argument named self

---
 src/sortedcontainers/sorteddict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 0c1e6d5..2870529 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -94,7 +94,7 @@ class SortedDict(dict):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(self, /, *args, **kwargs):
         """Initialize sorted dict instance.
 
         Optional key-function argument defines a callable that, like the `key`
@@ -484,7 +484,7 @@ class SortedDict(dict):
         dict.__setitem__(self, key, default)
         return default
 
-    def update(self, *args, **kwargs):
+    def update(self, /, *args, **kwargs):
         """Update sorted dict with items from `args` and `kwargs`.
 
         Overwrites existing items.
-- 
2.43.0

