From c69933fc7afe1c79af535abf1c01ad0f15eea98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 001/154] fix: IDAllocator honours a top limit of 0 and a top
 limit combined with start_at

top_limit=0 was treated as no limit, and the limit was compared with
integers relative to start_at, so that values at or above the limit
were handed out.
---
 satella/coding/concurrent/id_allocator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..668c38d 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -71,13 +71,13 @@ class IDAllocator(Monitor):
         self.start_at = start_at
         self.ints_allocated = set()
         self.free_ints = set()
-        self.top_limit = top_limit or math.inf
+        self.top_limit = math.inf if top_limit is None else top_limit
         self.bound = 0
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        if x > self.top_limit - self.start_at:      # x is relative to start_at
+            x = self.top_limit - self.start_at
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From 4c1e56efe3af17c33806b9c65b2e3cbf477170c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 002/154] fix: AtomicNumber notifies waiters on every in-place
 operation

&=, |=, ^=, <<=, >>= and **= changed the value without waking those blocked in wait().
---
 satella/coding/concurrent/atomic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..d887282 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
-- 
2.43.0


From c66866343415342a8c0537616f576b4ab8b8eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 003/154] fix: combining an AtomicNumber with itself no longer
 deadlocks

a + a, a == a, a += a etc. took the non-reentrant lock twice.
---
 satella/coding/concurrent/atomic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index d887282..4ccb36b 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -1,6 +1,6 @@
 import typing as tp
 
-from satella.coding.concurrent.monitor import Monitor
+from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
@@ -8,7 +8,7 @@ from satella.time.measure import measure
 Number = tp.Union[int, float]
 
 
-class AtomicNumber(Monitor):
+class AtomicNumber(RMonitor):
     """
     An atomic number. Note that the class is not hashable and for a reason, since it's value
     might change in time. So in this case this is more of like a container for numbers.
-- 
2.43.0


From 92a91849ebdfb34143589c572699d2b02798fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 004/154] fix: LockedDataset clears its locked flag before
 releasing the lock

The flag was cleared after the release, so that it could be cleared while
another thread was already inside, whose accesses then failed.
---
 satella/coding/concurrent/locked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..32c92be 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -93,8 +93,8 @@ class LockedDataset:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From bfadc0bbd47de4ae227bc8991ae12f272a9a2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:31 +0000
Subject: [PATCH 005/154] fix: SetHeap keeps its elements unique and its lookup
 set current

Duplicates given to the constructor or produced by filter_map were kept,
and pop_item left the element in the lookup set.
---
 satella/coding/structures/heaps/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 41c5da1..37d8314 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -153,7 +153,7 @@ class SetHeap(Heap):
             self.push(item)
 
     def __init__(self, from_list: tp.Optional[tp.Iterable[T]] = None):
-        super().__init__(from_list=from_list)
+        super().__init__(from_list=None if from_list is None else dict.fromkeys(from_list))
         self.set = set(self.data)
 
     def push(self, item: T):
@@ -166,6 +166,11 @@ class SetHeap(Heap):
         self.set.remove(item)
         return item
 
+    def pop_item(self, item: T) -> T:
+        item = super().pop_item(item)
+        self.set.remove(item)
+        return item
+
     def __contains__(self, item: T) -> bool:
         return item in self.set
 
@@ -173,3 +178,6 @@ class SetHeap(Heap):
                    map_fun: tp.Optional[tp.Callable[[T], tp.Any]] = None):
         super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
         self.set = set(self.data)
+        if len(self.set) != len(self.data):
+            self.data = list(self.set)
+            heapq.heapify(self.data)
-- 
2.43.0


From 92123b84056a153029f8e4aba365938872ba590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:31 +0000
Subject: [PATCH 006/154] fix: TimeBasedHeap.get_timestamp looks for the item
 itself, not for an item whose second element it is

---
 satella/coding/structures/heaps/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..66512df 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -64,7 +64,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
-- 
2.43.0


From e49ec96246a56b780e143c26d2fbb3a352000046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:31 +0000
Subject: [PATCH 007/154] fix: TimeBasedSetHeap keeps every item once; time
 based heaps can be copied

push_many, filter_map and remove did not maintain the item to timestamp
mapping, and copying a time based heap gave an empty one.
---
 satella/coding/structures/heaps/time.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 66512df..ad6d271 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -46,6 +47,16 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(copy.deepcopy(self.data, memo=memo))
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Get first item with given timestamp, while maintaining the heap invariant
@@ -186,6 +197,20 @@ class TimeBasedSetHeap(Heap):
         super().__init__(from_list=())
         self.item_to_timestamp = {}
 
+    __copy__ = TimeBasedHeap.__copy__
+    __deepcopy__ = TimeBasedHeap.__deepcopy__
+
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        for item in items:
+            self.push(item)
+
+    def filter_map(self, filter_fun=None, map_fun=None):
+        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        self.item_to_timestamp = {item: timestamp for timestamp, item in self.data}
+        if len(self.item_to_timestamp) != len(self.data):
+            self.data = [(timestamp, item) for item, timestamp in self.item_to_timestamp.items()]
+            heapq.heapify(self.data)
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Pop an arbitary object (in case there's two) item with given timestamp,
-- 
2.43.0


From 10cdf3a91504069ea93be63b8890579146bbf2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:05 +0000
Subject: [PATCH 008/154] fix: SortedList accepts items that cannot be compared
 when their keys are equal

---
 satella/coding/structures/sorted_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index dd2589c..ed5e151 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -20,7 +20,7 @@ class SortedList(tp.Generic[T]):
     __slots__ = ('items', 'keys', 'key')
 
     def __init__(self, items: tp.Iterable[T] = (), key: tp.Callable[[T], int] = lambda a: a):
-        sort = sorted((key(item), item) for item in items)
+        sort = sorted(((key(item), item) for item in items), key=lambda a: a[0])
         self.items = SliceableDeque(a[1] for a in sort)  # type: SliceableDeque[T]
         self.keys = collections.deque(a[0] for a in sort)  # type: collections.deque[int]
         self.key = key  # type: tp.Callable[[T], int]
-- 
2.43.0


From 21f589fc2cce84c40ce490746ba6a3e1740a6b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:05 +0000
Subject: [PATCH 009/154] fix: Ranking.remove forgets the position of the
 removed element

---
 satella/coding/structures/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/ranking.py b/satella/coding/structures/ranking.py
index b4761e4..946b2a9 100644
--- a/satella/coding/structures/ranking.py
+++ b/satella/coding/structures/ranking.py
@@ -52,6 +52,7 @@ class Ranking(tp.Generic[T]):
         Remove a single element from the ranking and _recalculate it
         """
         index = self.ranking.index(item)
+        self.element_to_position.pop(id(self.ranking[index]), None)
         self.ranking.remove(item)
         for position, item in enumerate(self.ranking[index:], start=index):
             self.element_to_position[id(item)] = position
-- 
2.43.0


From b5759e0ddd5e8e4b09b0e6b1bc31d13bf2d70a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 010/154] fix: TwoWayDictionary.done() and leaving its context
 no longer raise AttributeError

---
 satella/coding/structures/dictionaries/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index cfbe502..3c733a4 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -145,8 +145,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
         Internally this will break the reference cycle, and enable Python GC to collect the objects.
         """
-        self.reverse.reverse = None
-        self.reverse = None
+        self._reverse._reverse = None
+        self._reverse = None
 
     def __init__(self, data=None, _is_reverse: bool = False):
         if not _is_reverse:
-- 
2.43.0


From 702e8ab1f77d8ea19091ce95a7c2fc28259c1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 011/154] fix: TwoWayDictionary accepts setting a key to the
 value it already has

---
 satella/coding/structures/dictionaries/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index 3c733a4..c773ab1 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -175,6 +175,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
     def __setitem__(self, key: K, value: V) -> None:
         if value in self.reverse_data:
+            if key in self.data and self.data[key] == value:
+                return
             raise ValueError('This value is already mapped to something!')
 
         try:
-- 
2.43.0


From 88d599a77c62bce1d27b53d581b0807d6cdc8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 012/154] fix: asking whether a key is in a KeyAwareDefaultDict
 answers truthfully and inserts nothing

---
 satella/coding/structures/dictionaries/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index c773ab1..c73e837 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -104,6 +104,9 @@ class KeyAwareDefaultDict(tp.MutableMapping[K, V]):
         self.dict[item] = self.factory_function(item)
         return self.dict[item]
 
+    def __contains__(self, item: K) -> bool:
+        return item in self.dict
+
     def __setitem__(self, key: K, value: V) -> None:
         self.dict[key] = value
 
-- 
2.43.0


From 6acfd13b5d650d6c06f62d966be1cc2741254eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 013/154] fix: copies of a DictionaryView keep its deletion and
 assignment policies

---
 satella/coding/structures/dictionaries/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index c73e837..a5991a5 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -234,10 +234,14 @@ class DictionaryView(tp.MutableMapping[K, V]):
     __slots__ = 'assign_to_same_dict', 'master_dict', 'dictionaries', 'propagate_deletes'
 
     def __copy__(self) -> DictionaryView:
-        return DictionaryView(*copy.copy(self.dictionaries))
+        return DictionaryView(*copy.copy(self.dictionaries),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __deepcopy__(self, memo) -> 'DictionaryView':
-        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo))
+        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __init__(self, master_dict: tp.Dict[K, V], *rest_of_dicts: tp.Dict[K, V],
                  propagate_deletes: bool = True,
-- 
2.43.0


From d75f3971106792cf7b77bc83dc55e88a3dc31970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:25 +0000
Subject: [PATCH 014/154] fix: SelfCleaningDefaultDict can be iterated, and
 membership tells whether a key is held

---
 satella/coding/structures/dictionaries/expiring.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..99afd1c 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -99,8 +99,13 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(self.data)
+
+    @Monitor.synchronized
+    def __contains__(self, key) -> bool:
+        return key in self.data and not self.data[key] == self.default_value
 
+    @Monitor.synchronized
     def __delitem__(self, key: K) -> None:
         if key in self.data:
             del self.data[key]
-- 
2.43.0


From cac54efdb4cc69e9fbe1de1e7a7dfe01221861c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:45 +0000
Subject: [PATCH 015/154] fix: ExpiringEntryDict forgets an expired entry
 completely, reports missing keys with KeyError and accepts None as a key

---
 satella/coding/structures/dictionaries/expiring.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 99afd1c..484cd96 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -183,14 +183,10 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __contains__(self, item) -> bool:
         try:
-            ts = self.key_to_expiration_time.item_to_timestamp[item]
+            self[item]
         except KeyError:
             return False
 
-        if ts < self.time_getter():
-            del self[item]
-            return False
-
         return True
 
     def get_timestamp(self, key: K) -> float:
@@ -213,19 +209,22 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     @Monitor.synchronized
     def __setitem__(self, key: K, value: V) -> None:
-        self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
+        self.key_to_expiration_time.push((self.time_getter() + self.expiration_timeout, key))
         self.data[key] = value
 
+    @Monitor.synchronized
     @rethrow_as(ValueError, KeyError)
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
+            self.key_to_expiration_time.pop_item(item)
             del self.data[item]
             raise KeyError('Entry expired')
 
         return self.data[item]
 
     @Monitor.synchronized
+    @rethrow_as(ValueError, KeyError)
     def __delitem__(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
         del self.data[key]
-- 
2.43.0


From 329aa23e915baeb2cc57bad28d7730f7f8bd8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:45 +0000
Subject: [PATCH 016/154] fix: expiring and self-cleaning dictionaries can be
 used while acquired, as documented

---
 satella/coding/structures/dictionaries/expiring.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 484cd96..aa30bbd 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -4,7 +4,7 @@ import typing as tp
 import weakref
 from abc import ABCMeta, abstractmethod
 
-from satella.coding.concurrent.monitor import Monitor
+from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.recast_exceptions import rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
 from satella.coding.structures.singleton import Singleton
@@ -58,7 +58,7 @@ class ExpiringEntryDictThread(threading.Thread, Monitor):
         self.start()
 
 
-class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A defaultdict with the property that if it detects that a value is equal to it's default value,
     it will automatically remove it from the dict.
@@ -141,7 +141,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 del self.data[key]
 
 
-class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A dictionary whose entries expire automatically after a predefined period of time.
 
-- 
2.43.0


From d40ba4662dd7c2d0d2765aabe0fbec999fff7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 017/154] fix: CacheDict measures the age of entries with the
 time_getter it was given

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..74673a7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -217,7 +217,7 @@ class CacheDict(tp.Mapping[K, V]):
             return self.get_value_block(key)
 
         timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        now = self.time_getter()
 
         if key in self.cache_missed:
             return self._on_cache_hit_empty(key, timestamp, now)
-- 
2.43.0


From 532fe08352e6ae52a874e99b0f6914bf469290eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 018/154] fix: CacheDict.feed honours a timestamp of 0 and
 replaces a cached failure

---
 satella/coding/structures/dictionaries/cache_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 74673a7..96a7683 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -92,7 +92,9 @@ class CacheDict(tp.Mapping[K, V]):
         Feed this data into the cache
         """
         self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+        with silence_excs(KeyError):
+            self.cache_missed.remove(key)
 
     def has_info_about(self, key: K) -> bool:
         """
-- 
2.43.0


From f2134a748028e5535b917b887d71238cc83d32e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 019/154] fix: CacheDict forgets cached failures on
 invalidation and by the interval of failures

---
 satella/coding/structures/dictionaries/cache_dict.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 96a7683..23f27b2 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -112,7 +112,7 @@ class CacheDict(tp.Mapping[K, V]):
         if self.cache_failures:
             if key in self.cache_missed:
                 try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
+                    v = self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
                 except KeyError:
                     v = False
                 return v
@@ -236,10 +236,11 @@ class CacheDict(tp.Mapping[K, V]):
             return self.data[key]
 
     def __delitem__(self, key: K) -> None:
-        del self.data[key]
+        if key not in self.data and key not in self.cache_missed:
+            raise KeyError(key)
+        self.data.pop(key, None)
+        self.cache_missed.discard(key)
         del self.timestamp_data[key]
-        with silence_excs(KeyError):
-            self.cache_missed.remove(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
-- 
2.43.0


From b3823404c661288153159b0567fbfd5419ea1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 020/154] fix: LRUCacheDict does not evict when refreshing a
 key it holds, nor track keys it does not hold

---
 satella/coding/structures/dictionaries/cache_dict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 23f27b2..a446e40 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -298,7 +298,8 @@ class LRUCacheDict(CacheDict[K, V]):
 
     def get_value_block(self, key: K) -> V:
         v = super().get_value_block(key)
-        self.lru.add(key)
+        if key in self.data:
+            self.lru.add(key)
         return v
 
     def __delitem__(self, key: K) -> None:
@@ -318,6 +319,7 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Store a value with current timestamp
         """
-        self.make_room()
+        if key not in self.data:
+            self.make_room()
         self.lru.mark_as_used(key)
         super().__setitem__(key, value)
-- 
2.43.0


From 6c15696dbf6896ccf9233fe3762970c1e1ed925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:14 +0000
Subject: [PATCH 021/154] fix: CacheDict serves a stale value also if its
 refresh fails at once

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index a446e40..6928575 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -230,8 +230,9 @@ class CacheDict(tp.Mapping[K, V]):
         if now - timestamp > self.expiration_interval:
             return self.get_value_block(key)
         elif now - timestamp > self.stale_interval:
+            value = self.data[key]
             self.schedule_a_fetch(key)
-            return self.data[key]
+            return value
         else:
             return self.data[key]
 
-- 
2.43.0


From d2632f5592782d3304e3358cfb6cbdf18ac1f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 022/154] fix: iterating a ListDeleter backwards stops at the
 first element instead of starting over with the last

---
 satella/coding/deleters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..f6ebe88 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -156,7 +156,8 @@ class ListDeleter(tp.Generic[T]):
         return self
 
     def __next__(self) -> T:
-        if self.direction == DIR_BACKWARD and self.current_index == -1:
+        if self.direction == DIR_BACKWARD and self.current_index <= 0:
+            self.current_index = -1
             raise StopIteration('First element reached')
         if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Last element reached')
@@ -180,7 +181,8 @@ class ListDeleter(tp.Generic[T]):
         :return: the previous element
         :raises StopIteration: list is already at the first element!
         """
-        if self.direction == DIR_FORWARD and self.current_index == -1:
+        if self.direction == DIR_FORWARD and self.current_index <= 0:
+            self.current_index = -1
             raise StopIteration('Cannot go previous on a first element!')
         if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Cannot go previous on a last element!')
-- 
2.43.0


From 114c14dee2c2d5b1bb7a90b204d5e5faf90b24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 023/154] fix: the last element of a SparseMatrix can be
 deleted

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 05ade5f..d48bb21 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -303,11 +303,11 @@ class SparseMatrix(tp.Generic[T]):
                 v = self.rows_dict[row][col]
         return v
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_column_count(self) -> int:
         return max(self.known_column_count) + 1
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_row_count(self) -> int:
         return max(self.rows_dict) + 1
 
-- 
2.43.0


From 251fdec8ee6971e2ec10cf08f354eea0134178d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 024/154] fix: a SparseMatrix is true if it has rows

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index d48bb21..03f2235 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -142,7 +142,7 @@ class SparseMatrix(tp.Generic[T]):
         return self.rows_dict == other.rows_dict
 
     def __bool__(self) -> bool:
-        return self.no_rows == 0
+        return self.no_rows > 0
 
     def _sanitize_key(self, key: KeyArg) -> KeyArg:
         col, row = key
-- 
2.43.0


From ba96ffed9a8e623cff871c25a75ca28926bd4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 025/154] fix: SparseMatrix accepts ellipsis as documented and
 refuses negative indices out of range

---
 satella/coding/structures/sparse_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 03f2235..5c610de 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -12,10 +12,14 @@ def _cleanup_key(inst: tp.Union[int, slice], max_count: int):
         if not (inst.start is None and inst.stop is None and inst.step is None):
             raise IndexError('Custom slicing is not supported!')
         return Ellipsis
+    elif inst is Ellipsis:
+        return Ellipsis
     elif isinstance(inst, int):
         if isinstance(inst, int):
             if inst < 0:
                 inst += max_count
+                if inst < 0:
+                    raise IndexError('Negative index out of range!')
         return inst
 
 
-- 
2.43.0


From 4395016409c1930f99f685922363032b916167f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 026/154] fix: deleting an empty row of a SparseMatrix does not
 change its size

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 5c610de..1567ef8 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -232,7 +232,7 @@ class SparseMatrix(tp.Generic[T]):
 
         :param row_no: number of the row to delete
         """
-        cols = list(self.rows_dict[row_no].keys())  # Copy it here
+        cols = list(self.rows_dict.get(row_no, ()))  # Copy it here
         for col_no in cols:
             del self[col_no, row_no]
 
-- 
2.43.0


From 0200f8a5e872b9f87d79b646b607ca7d60830a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 027/154] fix: SparseMatrix.max and min ignore an undefined
 first element

---
 satella/coding/structures/sparse_matrix.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 1567ef8..0d16048 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -63,14 +63,7 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
-        for row in self:
-            for value in row:
-                if value is None:
-                    continue
-                if value > item:
-                    item = value
-        return item
+        return max(value for row in self for value in row if value is not None)
 
     def min(self) -> T:
         """
@@ -78,15 +71,7 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
-        for row in self:
-            for value in row:
-                if value is None:
-                    continue
-
-                if value < item:
-                    item = value
-        return item
+        return min(value for row in self for value in row if value is not None)
 
     def __init__(self, matrix_data: tp.Optional[tp.List[tp.List[T]]] = None):
         self.rows_dict = collections.defaultdict(lambda: collections.defaultdict(lambda: None))
-- 
2.43.0


From f265b51405c848fe282a3e125bf27f2d7fa726ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 028/154] fix: concurrent reads, writes and deletes of an
 ExclusiveWritebackCache keep it in agreement with the storage

---
 .../dictionaries/writeback_cache.py           | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..91f189d 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -90,9 +90,11 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
             try:
                 value = self.executor.submit(self.read_method, item).result()
                 with self.cache_lock:
-                    self.in_cache.add(item)
-                    self.cache[item] = value
-                return value
+                    if item not in self.in_cache:
+                        self.in_cache.add(item)
+                        self.cache[item] = value
+                    # else it was written or deleted while we were reading
+                    return self.cache[item]
             except KeyError:
                 if self.store_key_errors:
                     with self.cache_lock:
@@ -107,17 +109,16 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
-                self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+        with self.cache_lock:
+            self.in_cache.add(key)
+            with silence_excs(KeyError):
+                del self.cache[key]
+            self.executor.submit(self.delete_method, key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            self.executor.submit(self.write_method, key, value)
         self._operate()
-- 
2.43.0


From 304d80b07f5c5665d9ca6293d81b1f8120d12d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 029/154] fix: ExclusiveWritebackCache.sync honours its timeout

---
 .../coding/structures/dictionaries/writeback_cache.py    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 91f189d..b39cd4e 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -6,6 +6,7 @@ from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
 from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import V, K
+from satella.exceptions import WouldWaitMore
 
 
 class ExclusiveWritebackCache(tp.Generic[K, V]):
@@ -69,12 +70,14 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
+        started = time.monotonic()
         while self.get_queue_length() > 0:
+            if timeout is not None and time.monotonic() - started > timeout:
+                raise WouldWaitMore('timeout exceeded')
             time.sleep(0.1)
 
-        def fix():
-            return
-
+        if timeout is not None:
+            timeout = max(0.0, timeout - (time.monotonic() - started))
         sync_threadpool(self.executor, max_wait=timeout)
 
     def _operate(self):
-- 
2.43.0


From 1bffa699294b90cf73f06dfcedafb19ab77eeafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 030/154] fix: no method of frozendict changes it

---
 satella/coding/structures/immutable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 1238553..5a324d9 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -76,6 +76,8 @@ class frozendict(dict):
     def update(self, *args, **kwargs):
         raise TypeError('Cannot update a frozen dict!')
 
+    __delitem__ = pop = popitem = clear = setdefault = __ior__ = update
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From fe2371263d49bb4472eab768492c5c83b0878608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 031/154] fix: DictionaryEQAble considers attributes that only
 the other object has

---
 satella/coding/structures/mixins/eqable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/mixins/eqable.py b/satella/coding/structures/mixins/eqable.py
index 7438bcc..1aa5922 100644
--- a/satella/coding/structures/mixins/eqable.py
+++ b/satella/coding/structures/mixins/eqable.py
@@ -10,7 +10,7 @@ class DictionaryEQAble:
     """
 
     def __eq__(self, other) -> bool:
-        if type(self) != type(other):
+        if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
             return False
         for key in self.__dict__.keys():
             if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
@@ -18,7 +18,7 @@ class DictionaryEQAble:
         return True
 
     def __ne__(self, other) -> bool:
-        if type(self) != type(other):
+        if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
             return True
         for key in self.__dict__.keys():
             if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-- 
2.43.0


From d71f504153eab924f457b19fa70ccfd8a49612fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 032/154] fix: a singleton whose constructor failed is not
 handed out later

---
 satella/coding/structures/singleton.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 1744c96..e16de21 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -25,7 +25,11 @@ def Singleton(cls):
             return it
 
         cls.__it__ = it = cls.__new_old__(cls)
-        it.__init_old__(*args, **kw)
+        try:
+            it.__init_old__(*args, **kw)
+        except BaseException:
+            del cls.__it__  # it's not been constructed
+            raise
         return it
 
     cls.__new__ = singleton_new
@@ -83,7 +87,11 @@ def SingletonWithRegardsTo(num_args: int, weak_refs: bool = False):
                 return it[key]
 
             inst = it[key] = cls.__new_old__(cls)
-            inst.__init_old__(*args, **kw)
+            try:
+                inst.__init_old__(*args, **kw)
+            except BaseException:
+                del it[key]  # it's not been constructed
+                raise
             return inst
 
         cls.__new__ = singleton_new
-- 
2.43.0


From ca2ca24cfea6354ddd40e672c2605de28b46fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 033/154] fix: Proxy supports the modulo operator

---
 satella/coding/structures/proxy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 54ec9b5..e9c309f 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -123,6 +123,18 @@ class Proxy(tp.Generic[T]):
     def __mul__(self, other):
         return self.__obj * other
 
+    @wrap_operation
+    def __mod__(self, other):
+        return self.__obj % other
+
+    def __imod__(self, other) -> 'Proxy':
+        self.__obj %= other
+        return self
+
+    @wrap_operation
+    def __rmod__(self, other):
+        return other % self.__obj
+
     def __divmod__(self, other) -> tp.Tuple[Number, Number]:
         return divmod(self.__obj, other)
 
-- 
2.43.0


From 7476476a7f8232438bed532090d11cfc710b6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 034/154] fix: Proxy wraps the results of | and & as documented

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index e9c309f..9f2980d 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -195,9 +195,11 @@ class Proxy(tp.Generic[T]):
     def __ne__(self, other) -> bool:
         return self.__obj != other
 
+    @wrap_operation
     def __or__(self, other):
         return self.__obj | other
 
+    @wrap_operation
     def __and__(self, other):
         return self.__obj & other
 
-- 
2.43.0


From 7580e2ebcba83b39cc68d7d76728d716e6372c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 035/154] fix: a Proxy of an awaitable can be awaited

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 9f2980d..32e7229 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -304,7 +304,7 @@ class Proxy(tp.Generic[T]):
         return self
 
     def __await__(self):
-        return self.__obj.__await()
+        return self.__obj.__await__()
 
     def __aenter__(self):
         return self.__obj.__aenter__()
-- 
2.43.0


From 55bffc7ba86535c7ede2fb49c70447bd6e3ee818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 036/154] fix: rounding a Proxy without digits gives an integer
 like rounding its object

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 32e7229..72aee9b 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -355,7 +355,7 @@ class Proxy(tp.Generic[T]):
 
     @wrap_operation
     @rethrow_as(AttributeError, TypeError)
-    def __round__(self, n: int = 0):
+    def __round__(self, n: tp.Optional[int] = None):
         return round(self.__obj, n)
 
     @wrap_operation
-- 
2.43.0


From 734172152ade3df2a2a9530a0de473a87d660b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:49 +0000
Subject: [PATCH 037/154] fix: != of HashableWrapper is the opposite of ==

---
 satella/coding/structures/hashable_objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/hashable_objects.py b/satella/coding/structures/hashable_objects.py
index 635484b..9818756 100644
--- a/satella/coding/structures/hashable_objects.py
+++ b/satella/coding/structures/hashable_objects.py
@@ -31,3 +31,6 @@ class HashableWrapper(Proxy):
         else:
             obj2 = other
         return id(my_object) == id(obj2)
+
+    def __ne__(self, other) -> bool:
+        return not self == other
-- 
2.43.0


From 9daee66d99149e87c3b88c458a7c1629523310cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 038/154] fix: CallableGroup recognizes cancelled callbacks,
 and not live ones as cancelled

---
 satella/coding/concurrent/callablegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..a480e4d 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -113,7 +113,7 @@ class CallableGroup(tp.Generic[T]):
         of them was cancelled
         """
         for clb in self.callables:
-             if clb:
+            if not clb:
                 return True
         return False
 
-- 
2.43.0


From cc8c47d30b7092b5a3d9b20f5f7e70716b16eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 039/154] fix: CallableGroup keeps its callables if one of them
 raises

---
 satella/coding/concurrent/callablegroup.py | 30 +++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index a480e4d..49f4cac 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -173,18 +173,24 @@ class CallableGroup(tp.Generic[T]):
 
         results = []
 
-        for call, one_shot in callables.items():
-            try:
-                q = call(*args, **kwargs)
-            except Exception as e:
-                if not self.swallow_exceptions:
-                    raise  # re-raise
-                q = e
-
-            if self.gather:
-                results.append(q)
-
-            if not one_shot:
+        items = iter(callables.items())
+        try:
+            for call, one_shot in items:
+                try:
+                    q = call(*args, **kwargs)
+                except Exception as e:
+                    if not self.swallow_exceptions:
+                        raise  # re-raise
+                    q = e
+                finally:
+                    if not one_shot:
+                        self.add(call, one_shot)
+
+                if self.gather:
+                    results.append(q)
+        finally:
+            # if a callable raised, then those that follow it were not called and stay registered
+            for call, one_shot in items:
                 self.add(call, one_shot)
 
         if self.gather:
-- 
2.43.0


From ebfc62db37f3b768e2045917ac963744424db6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 040/154] fix: CallNoOftenThan makes its first call, gives
 results and honours the interval after a failure

---
 satella/coding/concurrent/callablegroup.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 49f4cac..b41887c 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -213,9 +213,11 @@ class CallNoOftenThan:
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = -float('inf')  # type: float
 
     def __call__(self, *args, **kwargs):
         if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
-            self.last_called = time.monotonic()
+            try:
+                return self.callable(*args, **kwargs)
+            finally:
+                self.last_called = time.monotonic()
-- 
2.43.0


From b4cb6b8acfe40163070fc6698c14b3266366edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 041/154] fix: FutureCollection cancels and starts all of its
 futures

---
 satella/coding/concurrent/futures/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From 27cd010a204d88bb3a5efc143049782ff1e62ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 042/154] fix: Future.exception can be called without a timeout

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..a82e463 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -125,7 +125,7 @@ class Future(PythonFuture, tp.Generic[T]):
         else:
             return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
+    def exception(self, timeout: tp.Optional[float] = None) -> tp.Type[Exception]:
         if self._state == PRE_FINISHED:
             return self._exception
         else:
-- 
2.43.0


From 7b489d345ec9c7682c27d20165b338ad4e355eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 043/154] fix: Future.on_success does not call its function if
 the future was cancelled

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index a82e463..af84863 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -50,7 +50,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut.cancelled() or fut._exception is not None:
                 return
             return fun(fut._result)
 
-- 
2.43.0


From e93a8a1b3f15a71755cb116e092391d64e978985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:17 +0000
Subject: [PATCH 044/154] fix: pre-done callbacks of a Future can replace an
 exception by a result

---
 satella/coding/concurrent/futures/futures.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index af84863..d6a4851 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -119,6 +119,13 @@ class Future(PythonFuture, tp.Generic[T]):
             except Exception:
                 LOGGER.exception('exception calling callback for %r', self)
 
+    def _notify_waiters(self):
+        for waiter in self._waiters:
+            if self._exception is None:
+                waiter.add_result(self)
+            else:
+                waiter.add_exception(self)
+
     def result(self, timeout=None) -> T:
         if self._state == PRE_FINISHED:
             return self.__get_result()
@@ -138,6 +145,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
         if self._state == PRE_FINISHED:
             self._result = result
+            self._exception = None
         else:
             with self._condition:
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
@@ -146,8 +154,7 @@ class Future(PythonFuture, tp.Generic[T]):
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
-                for waiter in self._waiters:
-                    waiter.add_result(self)
+                self._notify_waiters()
                 self._condition.notify_all()
             self._invoke_callbacks()
 
@@ -167,8 +174,7 @@ class Future(PythonFuture, tp.Generic[T]):
                 self._state = PRE_FINISHED
                 self._invoke_pre_callbacks()
                 self._state = FINISHED
-                for waiter in self._waiters:
-                    waiter.add_exception(self)
+                self._notify_waiters()
                 self._condition.notify_all()
             self._invoke_callbacks()
 
-- 
2.43.0


From afc55c3a1860a9d93423a0496283440a7361d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 045/154] fix: a WrappingFuture neither loses results nor hangs
 if its source finishes or is cancelled at the same time

---
 satella/coding/concurrent/futures/futures.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index d6a4851..62242e5 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -192,14 +192,15 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
-        if self.source_future._state == FINISHED:
+        state = self.source_future._state
+        if state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
+            # which becomes visible once _on_future_completed has been called
             return self._old_state
         else:
-            return self.source_future._state
+            return state
 
     @_state.setter
     def _state(self, v: str):
@@ -209,13 +210,19 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                self._state = CANCELLED_AND_NOTIFIED
+                for waiter in self._waiters:
+                    waiter.add_cancelled(self)
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
         return self.source_future.cancel()
 
 
-- 
2.43.0


From 75cc8b3a6b375909c52d389e58e845f9eacde5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:41 +0000
Subject: [PATCH 046/154] fix: the future of run_as_future completes also if
 its function exits the thread

---
 satella/coding/concurrent/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index cb72b14..b0e785e 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -32,7 +32,7 @@ def run_as_future(fun):
         def separate_target():
             try:
                 fut.set_result(fun(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:  # pylint: disable=broad-except
                 fut.set_exception(e)
 
         Thread(target=separate_target).start()
-- 
2.43.0


From 443e3b0bb65faeed8075145bb5c92c3f45674bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:54 +0000
Subject: [PATCH 047/154] fix: PeekableQueue does not lose wake-ups: checking
 for elements and starting to wait is one atomic step

---
 satella/coding/concurrent/queue.py | 68 ++++++++----------------------
 1 file changed, 17 insertions(+), 51 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..cca0c25 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -2,10 +2,8 @@ import collections
 import threading
 import typing as tp
 
-from satella.coding.concurrent.thread import Condition
-from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.typing import T
-from satella.exceptions import WouldWaitMore, Empty
+from satella.exceptions import Empty
 from satella.time.measure import measure
 
 
@@ -19,7 +17,7 @@ class PeekableQueue(tp.Generic[T]):
         super().__init__()
         self.queue = collections.deque()
         self.lock = threading.Lock()
-        self.inserted_condition = Condition()
+        self.inserted_condition = threading.Condition(self.lock)
 
     def put(self, item: T) -> None:
         """
@@ -29,7 +27,8 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+            # wake up everyone, as the one woken up might be just a peeker
+            self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,53 +37,20 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
-            for item in items:
-                items_count += 1
-                self.queue.append(item)
-        self.inserted_condition.notify(items_count)
-
-    def __get_timeout_none(self, item_getter):
-        while True:
-            self.lock.release()
-            self.inserted_condition.wait()
-            self.lock.acquire()
-            if len(self.queue):
-                try:
-                    return item_getter(self.queue)
-                finally:
-                    self.lock.release()
-
-    def __get_timeout(self, item_getter, timeout):
-        with measure(timeout=timeout) as measurement:
-            while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
-                self.inserted_condition.wait(timeout=measurement.time_remaining)
-                self.lock.acquire()
-                if len(self.queue):
-                    try:
-                        return item_getter(self.queue)
-                    finally:
-                        self.lock.release()
-            else:
-                self.lock.release()
-                raise Empty('queue is empty')
-
-    @rethrow_as(WouldWaitMore, Empty)
-    def __get(self, timeout, item_getter) -> T:
-        self.lock.acquire()
-        if len(self.queue):
-            # Fast path
             try:
-                return item_getter(self.queue)
+                for item in items:
+                    self.queue.append(item)
             finally:
-                self.lock.release()
-        else:
-            if timeout is None:
-                return self.__get_timeout_none(item_getter)
-            else:
-                return self.__get_timeout(item_getter, timeout)
+                self.inserted_condition.notify_all()
+
+    def __get(self, timeout, item_getter) -> T:
+        with measure(timeout=timeout) as measurement, self.lock:
+            while not self.queue:
+                if measurement.timeouted:
+                    raise Empty('queue is empty')
+                # this releases the lock for the time of waiting
+                self.inserted_condition.wait(measurement.time_remaining)
+            return item_getter(self.queue)
 
     def get(self, timeout: tp.Optional[float] = None) -> T:
         """
@@ -104,7 +70,7 @@ class PeekableQueue(tp.Generic[T]):
         :param timeout: maximum amount of seconds to wait. Default value of None
             means wait as long as necessary
         :return: the item
-        :raise WouldWaitMore: timeout has expired
+        :raise Empty: timeout has expired
         """
         return self.__get(timeout, lambda queue: queue[0])
 
-- 
2.43.0


From eb9751a5652dd9d8c6b2ebbfef0c669d266becca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:54 +0000
Subject: [PATCH 048/154] fix: AtomicNumber.wait_until_equal does not lose a
 change made between the comparison and the wait

---
 satella/coding/concurrent/atomic.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 4ccb36b..4c7c99e 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -271,18 +271,11 @@ class AtomicNumber(RMonitor):
         :param timeout: maximum time to wait
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
-        if timeout is None:
-            while True:
-                if self == v:
-                    break
-                self.wait()
-        else:
-            with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
-
-                with Monitor.acquire(self):
-                    if self.value != v:
-                        raise WouldWaitMore()
+        with measure(timeout=timeout) as measurement, self.condition:
+            # holding the lock of the condition, so that no notification can come between
+            # the comparison and the wait. The monitor must not be acquired here, as those who change
+            # the value notify the condition while holding the monitor.
+            while self.value != (v.value if isinstance(v, AtomicNumber) else v):
+                if measurement.timeouted:
+                    raise WouldWaitMore()
+                self.condition.wait(measurement.time_remaining, dont_raise=True)
-- 
2.43.0


From ef24d75773d127c875355dc231e419e5b66e7afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:54 +0000
Subject: [PATCH 049/154] fix: of two threads setting a DeferredValue at once
 only one succeeds

---
 satella/coding/concurrent/value.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..a86e8d3 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,9 +36,10 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
         self.lock.set()
 
     def result(self, timeout=None) -> T:
-- 
2.43.0


From 807f26838482938522e1f65f8f6d3470e1487a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:54 +0000
Subject: [PATCH 050/154] fix: sync_threadpool always lets the workers of the
 pool go

---
 satella/coding/concurrent/sync.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..8994469 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
 import typing as tp
 import time
+from threading import Event
 from concurrent.futures import wait, ThreadPoolExecutor
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,21 +49,23 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        finished = Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            finished.wait()
 
-        futures = [tpe.submit(decrease_atm) for _ in range(workers)]
+        try:
+            futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            finished.set()      # do not keep the workers even if this has failed
         wait(futures)
-- 
2.43.0


From 2e9fb9e4a8cc268d6a60bc3b5aba837601764ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 051/154] fix: the future of call_in_separate_thread completes
 also if its function exits the thread

---
 satella/coding/concurrent/thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..efe2296 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -59,7 +59,7 @@ def call_in_separate_thread(*t_args, no_thread_attribute: bool = False,
                     try:
                         res = fun(*args, **kwargs)
                         self.future.set_result(res)
-                    except Exception as e:
+                    except BaseException as e:  # pylint: disable=broad-except
                         self.future.set_exception(e)
 
             t = MyThread()
-- 
2.43.0


From 0d4217f0a7ffd542ea2b946f138674a5648933c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:41 +0000
Subject: [PATCH 052/154] fix: AtomicNumber.wait reports only WouldWaitMore,
 and nothing if told not to raise

---
 satella/coding/concurrent/atomic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 4c7c99e..3ba83f2 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -2,7 +2,7 @@ import typing as tp
 
 from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.concurrent.thread import Condition
-from satella.exceptions import WouldWaitMore
+from satella.exceptions import ResourceLocked, WouldWaitMore
 from satella.time.measure import measure
 
 Number = tp.Union[int, float]
@@ -45,9 +45,9 @@ class AtomicNumber(RMonitor):
         """
         try:
             self.condition.wait(timeout)
-        except WouldWaitMore:
+        except (WouldWaitMore, ResourceLocked):
             if throw_exception:
-                raise
+                raise WouldWaitMore('the value has not changed')
 
     @Monitor.synchronized
     def __repr__(self) -> str:
-- 
2.43.0


From 672e7e1fe7f98a2ce9d734138c702c5bb9864791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 053/154] fix: timers are taken out of their heap while holding
 its lock

---
 satella/coding/concurrent/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..ab21756 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -83,7 +83,7 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From d29bccbcca268eaaf51e488a8240241b9cdb2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 054/154] fix: two timers can be due at exactly the same moment

---
 satella/coding/concurrent/timer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index ab21756..57ea4bb 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -54,6 +54,10 @@ n     If spawn_separate is False, exceptions will be logged.
         """Do not execute this timer"""
         self.cancelled = True
 
+    def __lt__(self, other: 'Timer') -> bool:
+        # timers due at the same moment are kept in any order
+        return id(self) < id(other)
+
     def _try_execute(self):
         if self.cancelled:
             return
-- 
2.43.0


From ae48c48d8c6e946e0d69ae7b8f9c09cbe1286906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 055/154] fix: a timer function that calls sys.exit does not
 stop all other timers

---
 satella/coding/concurrent/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 57ea4bb..95bc434 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -90,5 +90,5 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
-                with log_exceptions(logger, swallow_exception=True):
+                with log_exceptions(logger, exc_types=BaseException, swallow_exception=True):
                     item[1]._try_execute()
-- 
2.43.0


From 53849586577fa66c33bdbe96d38c18078f07019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 056/154] fix: SingleStartThread.start always returns the
 thread, and starts it once also if called by two threads

---
 satella/coding/concurrent/thread.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index efe2296..50c0d68 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -151,6 +151,7 @@ class SingleStartThread(threading.Thread):
 
     def __init__(self, *args, **kwargs):
         self.__started = False
+        self.__start_lock = threading.Lock()
         super().__init__(*args, **kwargs)
 
     def start(self) -> 'SingleStartThread':
@@ -159,9 +160,10 @@ class SingleStartThread(threading.Thread):
 
         :return: self
         """
-        if self.__started:
-            return
-        self.__started = True
+        with self.__start_lock:
+            if self.__started:
+                return self
+            self.__started = True
         super().start()
         return self
 
-- 
2.43.0


From 2e21b05cf6146ce01bc48b1e619cb2faed5d7fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 057/154] fix: BogusTerminableThread can be joined without a
 timeout and does not exceed a given one

---
 satella/coding/concurrent/thread.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 50c0d68..373f12b 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -222,8 +222,13 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
-                time.sleep(1)
+            while not self.terminated:
+                ttw = 1
+                if timeout is not None:
+                    ttw = min(1, timeout - (time.monotonic() - started_elapsing))
+                    if ttw <= 0:
+                        break
+                time.sleep(ttw)
             if not self.terminated:
                 raise WouldWaitMore('thread failed to terminate')
 
-- 
2.43.0


From 28e6b69ebe16d95d776fa81d9ae7cbff242ee5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 058/154] fix: a thread whose loop raised SystemExit counts as
 terminating

---
 satella/coding/concurrent/thread.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 373f12b..63ac384 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -342,7 +342,8 @@ class TerminableThread(threading.Thread):
                             return
                     raise
         except SystemExit:
-            pass
+            if not self._terminating:
+                self.terminate()
         finally:
             self.cleanup()
 
@@ -526,6 +527,7 @@ class IntervalTerminableThread(TerminableThread, metaclass=ABCMeta):
                 else:
                     self.safe_sleep(time_to_sleep)
         except SystemExit:
-            pass
+            if not self._terminating:
+                self.terminate()
         finally:
             self.cleanup()
-- 
2.43.0


From 8f86d9815a5af50a60cb131ff5e14449bbe56845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:33 +0000
Subject: [PATCH 059/154] fix: CPManager.invalidate does not hang if a
 connection is acquired meanwhile, and forgets a connection whose teardown
 fails

---
 satella/coding/resources/cp_manager.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..899573e 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -60,10 +60,13 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         """
         Close all connections. Connections have to be released first. Object is ready for use after this
         """
-        while self.connections.qsize() > 0:
-            conn = self.connections.get()
-            self.teardown_connection(conn)
+        while True:
+            try:
+                conn = self.connections.get(False)
+            except queue.Empty:     # other threads may acquire connections meanwhile
+                break
             del self.id_to_times[id(conn)]
+            self.teardown_connection(conn)
 
     def acquire_connection(self) -> T:
         """
-- 
2.43.0


From 455017424d0de2e5a5409fe191f473e38b0fab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:33 +0000
Subject: [PATCH 060/154] fix: a connection released after its CPManager was
 closed is torn down

---
 satella/coding/resources/cp_manager.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 899573e..7d03233 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -100,13 +100,15 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         :param connection: connection to release
         """
         obj_id = id(connection)
-        if self.id_to_times[obj_id] >= self.max_cycle_no:
+        with Monitor.acquire(self):
+            keep = not self.terminating and self.id_to_times[obj_id] < self.max_cycle_no
+            if keep:
+                try:
+                    self.connections.put(connection, False)
+                except queue.Full:
+                    keep = False
+        if not keep:
             self._kill_connection(connection)
-        else:
-            try:
-                self.connections.put(connection, False)
-            except queue.Full:
-                self._kill_connection(connection)
 
     def _kill_connection(self, connection):
         obj_id = id(connection)
-- 
2.43.0


From 4078b328f0b099a95c70d148bb18971470981e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:33 +0000
Subject: [PATCH 061/154] fix: CPManager.max_number can be changed during
 runtime, as documented

---
 satella/coding/resources/cp_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 7d03233..ae868f5 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -44,7 +44,7 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         Monitor.__init__(self)
         if sys.implementation.name != 'cpython':
             warnings.warn(f'This may run bad on {sys.implementation.name}', RuntimeWarning)
-        self.connections = queue.Queue(max_number)
+        self.connections = queue.Queue()
         self.max_number = max_number
         self.max_cycle_no = max_cycle_no
         self.id_to_times = {}  # type: tp.Dict[int, int]
@@ -103,10 +103,9 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         with Monitor.acquire(self):
             keep = not self.terminating and self.id_to_times[obj_id] < self.max_cycle_no
             if keep:
-                try:
-                    self.connections.put(connection, False)
-                except queue.Full:
-                    keep = False
+                keep = self.connections.qsize() < self.max_number
+            if keep:
+                self.connections.put(connection, False)
         if not keep:
             self._kill_connection(connection)
 
-- 
2.43.0


From 5f6c1eb7d70251810eee4883fb859895e3b7a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:03 +0000
Subject: [PATCH 062/154] fix: measure.start() resumes measuring instead of
 starting from zero, as documented

---
 satella/time/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..d088346 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -194,10 +194,8 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is None:
             raise TypeError('the counter is already running!')
 
-        if self.stopped_on is not None:
-            self.started_on = self.time_getter_callable() - self.elapsed
-            self.stopped_on = None
-        self.started_on = self.time_getter_callable()
+        self.started_on = self.time_getter_callable() - self.elapsed
+        self.stopped_on = None
         self.elapsed = None
 
     def update(self) -> None:
-- 
2.43.0


From 7ac85868e388c7dbefa97ef3e191fe53a250e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:03 +0000
Subject: [PATCH 063/154] fix: a measure stopped inside its with block does not
 raise TypeError on exit

---
 satella/time/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index d088346..8cd92d9 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -278,6 +278,6 @@ class measure:  # pylint: disable=invalid-name
         self.elapsed = self.stopped_on - self.started_on
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.stop_on_stop:
+        if self.stop_on_stop and not self.stopped:
             self.stop()
         return False
-- 
2.43.0


From 9e8676e0e83fb446ab4afdb39b0fb64cc2dbbed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:04 +0000
Subject: [PATCH 064/154] fix: parse_time_string understands '5 days', '5
 hours' and the like

---
 satella/time/parse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/time/parse.py b/satella/time/parse.py
index 329ac86..7d31492 100644
--- a/satella/time/parse.py
+++ b/satella/time/parse.py
@@ -29,8 +29,10 @@ def parse_time_string(s: tp.Union[int, float, str]) -> float:
     if isinstance(s, (int, float)):
         return s
 
-    for modifier, multiple in TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
+    found = [(s.index(modifier), multiple) for modifier, multiple in TIME_MODIFIERS
+             if modifier in s]
+    if found:
+        index, multiple = min(found)    # unit is told by its first letter
+        return float(s[:index]) * multiple
 
     return float(s)
-- 
2.43.0


From 46e606fa48a4918f5c874ae987527a8976dafeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:04 +0000
Subject: [PATCH 065/154] fix: sleep does not raise ValueError if the time is
 over just before it goes to sleep

---
 satella/time/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/time/misc.py b/satella/time/misc.py
index a7a16c1..581d00b 100644
--- a/satella/time/misc.py
+++ b/satella/time/misc.py
@@ -25,12 +25,14 @@ def sleep(y: tp.Union[str, float], abort_on_interrupt: bool = False) -> bool:
         return False
 
     with measure() as measurement:
-        while measurement() < y:
+        remaining = y
+        while remaining > 0:
             try:
-                time.sleep(y - measurement())
+                time.sleep(remaining)
             except KeyboardInterrupt:
                 if abort_on_interrupt:
                     return False
+            remaining = y - measurement()
     return True
 
 
-- 
2.43.0


From 1d50ae43c813f8f35f52efd42676a74662e4605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:04 +0000
Subject: [PATCH 066/154] fix: ExponentialBackoff never sleeps longer than its
 limit

---
 satella/time/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..5f732e9 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -64,7 +64,7 @@ class ExponentialBackoff:
         """
         if self.grace_amount == self.grace_counter:
             if self.counter == 0:
-                self.counter = self.start
+                self.counter = min(self.limit, self.start)
             else:
                 self.counter = min(self.limit, self.counter * 2)
             self.unavailable_until = time.monotonic() + self.counter
-- 
2.43.0


From 4ec272d1a29eab2cf6c30ac9abf18e93a463580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:04 +0000
Subject: [PATCH 067/154] fix: asking an ExponentialBackoff does not fail or
 forget a failure reported by another thread meanwhile

---
 satella/time/backoff.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 5f732e9..d344846 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -89,15 +89,15 @@ class ExponentialBackoff:
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        unavailable_until = self.unavailable_until  # other threads may change it
+        if unavailable_until is None:
             return None
         else:
             t = time.monotonic()
-            if t > self.unavailable_until:
-                self.unavailable_until = None
+            if t > unavailable_until:
                 return None
             else:
-                return self.unavailable_until - t
+                return unavailable_until - t
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -105,13 +105,7 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
-            return True
-        elif time.monotonic() > self.unavailable_until:
-            self.unavailable_until = None
-            return True
-        else:
-            return False
+        return self.time_until_next_check() is None
 
     @property
     def available(self) -> bool:
-- 
2.43.0


From ebcdf3e5b3b2b10bdf7f4ba1465e0d54ea8e7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:04 +0000
Subject: [PATCH 068/154] fix: wait_until_available keeps its timeout, and is
 always woken up by success

---
 satella/time/backoff.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index d344846..d96e5c3 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -79,13 +79,16 @@ class ExponentialBackoff:
             WouldWaitMore will be raised
         :raises WouldWaitMore: waited for timeout and service still was not healthy
         """
-        with measure(timeout=timeout) as m:
-            while not m.timeouted:
+        with measure(timeout=timeout) as m, self.condition:
+            while True:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                if m.timeouted:
+                    raise WouldWaitMore('timeouted while waiting for service to become healthy')
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
-            raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-- 
2.43.0


From 8ce471ac98753298fc50016dca7e15fe144194aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:53 +0000
Subject: [PATCH 069/154] fix: retry does not repeat an operation that
 succeeded if call_on_success raises

---
 satella/coding/decorators/retry_dec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..b8d7fad 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -64,14 +64,14 @@ def retry(times: tp.Optional[int] = None,
             for i in iterator:
                 try:
                     y = fun(*args, **kwargs)
-                    if call_on_success is not None:
-                        call_on_success(i)
-                    return y
                 except exc_classes as e:
                     f = e
                     if call_between_retries is not None:
                         call_between_retries(e)
-                    continue
+                else:
+                    if call_on_success is not None:
+                        call_on_success(i)
+                    return y
             else:
                 on_failure(f)
                 if call_on_failure is not None:
-- 
2.43.0


From b7c14b46554eeb7d730e48b62ce34fa79372b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:53 +0000
Subject: [PATCH 070/154] fix: retry calls call_between_retries only between
 retries

---
 satella/coding/decorators/retry_dec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index b8d7fad..6c6dd46 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -66,7 +66,8 @@ def retry(times: tp.Optional[int] = None,
                     y = fun(*args, **kwargs)
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
+                    is_last = times is not None and i + 1 >= times
+                    if call_between_retries is not None and not is_last:
                         call_between_retries(e)
                 else:
                     if call_on_success is not None:
-- 
2.43.0


From 4caceb2f5788d1832678f26e2a6598a7716c1e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 071/154] fix: a silenced recursive call does not make the
 whole function lose its result

---
 satella/coding/recast_exceptions.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..27add17 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import threading
 import typing as tp
 import warnings
 
@@ -233,7 +232,7 @@ class rethrow_as:
         is used as as decorator
     :raises ValueError: you specify both returns and returns_factory
     """
-    __slots__ = 'mapping', 'exception_preprocessor', 'returns', '__exception_remapped', 'returns_factory'
+    __slots__ = 'mapping', 'exception_preprocessor', 'returns', 'returns_factory'
 
     def __init__(self, *pairs: ExceptionList,
                  exception_preprocessor: tp.Optional[tp.Callable[[Exception], str]] = repr,
@@ -259,35 +258,28 @@ class rethrow_as:
         if self.returns is not None and self.returns_factory is not None:
             raise ValueError('You can specify only one of (returns, returns_factory)')
 
-        # this is threading.local because two threads may execute the same function at the
-        # same time, and exceptions from one function would leak to another
-        self.__exception_remapped = threading.local()
 
     def __call__(self, fun: tp.Callable) -> tp.Callable:
         @wraps(fun)
         def inner(*args, **kwargs):
             with self:
-                v = fun(*args, **kwargs)
-            if self.__exception_remapped.was_raised:
-                # This means that the normal flow of execution was interrupted
-                if self.returns is not None:
-                    return self.returns
-                elif self.returns_factory is not None:
-                    return self.returns_factory()
-                return
-            return v
+                return fun(*args, **kwargs)
+
+            # This means that the normal flow of execution was interrupted
+            if self.returns is not None:
+                return self.returns
+            elif self.returns_factory is not None:
+                return self.returns_factory()
 
         return inner
 
     def __enter__(self):
-        self.__exception_remapped.was_raised = False
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if exc_type is not None:
             for from_, to in self.mapping:
                 if issubclass(exc_type, from_):
-                    self.__exception_remapped.was_raised = True
                     if to is None:
                         return True
                     raise to(self.exception_preprocessor(exc_val))
-- 
2.43.0


From 653700d99cc3f75dbbfcf5b3bf63b9a74e04c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 072/154] fix: reraise_as as a decorator handles the same
 exceptions as the context manager

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 27add17..ee8516a 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -171,7 +171,7 @@ class reraise_as:
         def inner(*args, **kwargs):
             try:
                 return fun(*args, **kwargs)
-            except Exception as e:          # pylint: disable=broad-except
+            except BaseException as e:          # pylint: disable=broad-except
                 if isinstance(e, self.source):
                     if self.target_exc is not None:
                         raise self.target_exc(*self.args, **self.kwargs) from e
-- 
2.43.0


From fdffc3d1bfb0d3bb8ee68dc6bdddbb906c558234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 073/154] fix: log_exceptions handles every exception listed, a
 None and a list of exceptions

---
 satella/coding/recast_exceptions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index ee8516a..1e18e73 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -72,7 +72,9 @@ class log_exceptions:
         self.severity = severity
         self.format_string = format_string
         self.locals = locals_
-        self.exc_types = exc_types
+        if exc_types is None:
+            exc_types = Exception
+        self.exc_types = exc_types if isinstance(exc_types, type) else tuple(exc_types)
 
     def __enter__(self):
         return self
@@ -107,7 +109,7 @@ class log_exceptions:
                 # noinspection PyBroadException
                 try:
                     yield from fun(*args, **kwargs)
-                except Exception as e:      # pylint: disable=broad-except
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
@@ -118,7 +120,7 @@ class log_exceptions:
                 # noinspection PyBroadException
                 try:
                     return fun(*args, **kwargs)
-                except Exception as e:      # pylint: disable=broad-except
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
-- 
2.43.0


From db6a7257bf886b40aa3c135bcce2ee1436fb67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 074/154] fix: log_exceptions does not replace the exception
 with a KeyError if a field has a format or conversion

---
 satella/coding/recast_exceptions.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 1e18e73..9958d2e 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -88,15 +88,9 @@ class log_exceptions:
         """Return whether the exception has been logged"""
         if not isinstance(e, self.exc_types):
             return False
-        format_dict = {}
-        if '{args}' in self.format_string:
-            format_dict['args'] = args
-        if '{kwargs}' in self.format_string:
-            format_dict['kwargs'] = kwargs
+        format_dict = {'args': args, 'kwargs': kwargs}
         if self.locals is not None:
-            for key, value in self.locals.items():
-                if '{%s}' % (key,) in self.format_string:
-                    format_dict[key] = value
+            format_dict.update(self.locals)
         format_dict['e'] = e
         self.logger.log(self.severity, self.format_string.format(**format_dict),
                         exc_info=e)
-- 
2.43.0


From 755621783e9964a351d88a821924cc222df11eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 075/154] fix: queue_get does not take exceptions of the
 decorated method for an empty queue

---
 satella/coding/decorators/flow_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..40a0f29 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+            else:
+                return fun(self, item)
 
         return inner
 
-- 
2.43.0


From 554e099e343d0a36855a8e6eafb1a9b28640e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 076/154] fix: RunActionAfterGeneratorCompletes runs the action
 once, also if the generator completes on send or throw

---
 satella/coding/generators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..91e0146 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -31,22 +31,26 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
 
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        return self.__run(self.generator.send, value)
 
     def next(self):
-        return self.generator.__next__()
+        return self.__next__()
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        return self.__run(self.generator.throw, __typ, __val, __tb)
 
     def __next__(self):
+        return self.__run(self.generator.__next__)
+
+    def __run(self, operation, *args):
         try:
-            return self.generator.__next__()
+            return operation(*args)
         except StopIteration:
             if not self.closed:
+                self.closed = True      # the action is to be run once
                 self.action_to_run(*self.args, **self.kwargs)
             raise
 
-- 
2.43.0


From 7d6b07bd38ce974178dfc34c7f6d7984bdfb1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 077/154] fix: transform_result and transform_arguments accept
 keyword arguments

---
 satella/coding/decorators/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 32fed98..2f47c30 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -35,7 +35,7 @@ def transform_result(expr: str):
         @wraps(fun)
         def inner(*args, **kwargs):
             a = fun(*args, **kwargs)
-            local = get_arguments(fun, *args, *kwargs)
+            local = get_arguments(fun, *args, **kwargs)
             local['x'] = a
             return eval(expr, globals(), local)
 
@@ -62,7 +62,7 @@ def transform_arguments(**expressions: str):
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            old_args = get_arguments(fun, *args, *kwargs)
+            old_args = get_arguments(fun, *args, **kwargs)
             new_args = {}
             for arg, arg_value in expressions.items():
                 new_args[arg] = eval(arg_value, globals(), old_args)
-- 
2.43.0


From 407951b4c0a6f948f1e40fe157ba399f4f9a3567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 078/154] fix: get_arguments binds arguments as a call of the
 function would

---
 satella/coding/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 1152e5e..72cfd34 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -269,7 +269,9 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
         appear in function if called with provided arguments
     :raise TypeError: the dictionary cannot be created with provided arguments
     """
-    return _get_arguments(function, False, *args, **kwargs)
+    bound = signature(function).bind(*args, **kwargs)
+    bound.apply_defaults()
+    return dict(bound.arguments)
 
 
 # pylint: disable=too-many-locals
-- 
2.43.0


From 9c6dc502683c426dc57b82eaaf1dcb1062acb84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 079/154] fix: chain_functions passes on any pair that is not
 (arguments, keyword arguments)

---
 satella/coding/decorators/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index a896e9a..ec1efba 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -55,7 +55,8 @@ def chain_functions(fun_first: tp.Callable[..., tp.Union[tp.Tuple[tp.Tuple, tp.D
             if isinstance(ret, dict):
                 args = ()
                 kwargs = ret
-            elif isinstance(ret, tuple) and len(ret) == 2:
+            elif isinstance(ret, tuple) and len(ret) == 2 and isinstance(ret[0], (tuple, list)) \
+                    and isinstance(ret[1], dict):
                 args, kwargs = ret
             elif isinstance(ret, tuple):
                 args = ret
-- 
2.43.0


From 097720035ebdcc32c5357a404eff3671c36c667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 080/154] fix: cache_memoize does not serve a value computed
 for other keyword arguments

---
 satella/coding/decorators/decorators.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index ec1efba..05b76ee 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -166,22 +166,23 @@ def cache_memoize(cache_duration: float, time_getter: tp.Callable[[], float] = t
         def inner(*args, **kwargs):
 
             now = time_getter()
+            key = args, tuple(sorted(kwargs.items()))
 
             with Monitor.acquire(fun.memoize_timestamps):
-                if args in fun.memoize_timestamps:
-                    ts = fun.memoize_timestamps[args]
+                if key in fun.memoize_timestamps:
+                    ts = fun.memoize_timestamps[key]
                     if now - ts > cache_duration:
                         with Monitor.release(fun.memoize_timestamps):
                             v = fun(*args, **kwargs)
-                        fun.memoize_timestamps[args] = now
-                        fun.memoize_values[args] = v
+                        fun.memoize_timestamps[key] = now
+                        fun.memoize_values[key] = v
                 else:
                     with Monitor.release(fun.memoize_timestamps):
                         v = fun(*args, **kwargs)
-                    fun.memoize_timestamps[args] = now
-                    fun.memoize_values[args] = v
+                    fun.memoize_timestamps[key] = now
+                    fun.memoize_values[key] = v
 
-                return fun.memoize_values[args]
+                return fun.memoize_values[key]
 
         return inner
 
-- 
2.43.0


From de19a04747ae2fd48ffbfe811b72c5ba41be208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:05 +0000
Subject: [PATCH 081/154] fix: replace_argument_if with a predicate replaces
 only what the predicate accepts

---
 satella/coding/decorators/arguments.py | 5 +++--
 satella/coding/predicates.py           | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 2f47c30..4e520c8 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -153,8 +153,9 @@ def replace_argument_if(arg_name: str,
             if arg_name in args_dict:
                 v = args_dict[arg_name]
                 if predicate is not None:
-                    args_dict[arg_name] = build_structure(structure, v)
-                    altered = True
+                    if predicate(v):
+                        args_dict[arg_name] = build_structure(structure, v)
+                        altered = True
                 elif isinstance(v, instance_of):
                     args_dict[arg_name] = build_structure(structure, v)
                     altered = True
diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 46b2387..17d0901 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -187,6 +187,7 @@ class PredicateClass:
                                          'is an instance of instance')
 
     length = make_operation_single_arg(len, 'Return a predicate returning length of it''s argument')
+    len = make_operation_single_arg(len, 'Return a predicate returning length of it''s argument')
 
     __contains__ = make_operation_two_args(operator.contains)
     __getattr__ = make_operation_two_args(getattr)
-- 
2.43.0


From aa7e924605074e97a1059d1efbaf02675dc11014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 082/154] fix: call_with_arguments does not shift arguments if
 one with a default is not given

---
 satella/coding/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 72cfd34..351f9b7 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -367,6 +367,8 @@ def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any])
                 continue
             elif param.default == Parameter.empty:
                 raise TypeError('Argument %s not found' % (param_name,))
+            elif param_kind != Parameter.KEYWORD_ONLY:
+                args.append(param.default)      # so that those after it get to their places
             continue
 
         if param_kind == Parameter.POSITIONAL_ONLY or param_kind == Parameter.POSITIONAL_OR_KEYWORD:
-- 
2.43.0


From 25c224f42003c561dfd5c50fd05595800c9df6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:01 +0000
Subject: [PATCH 083/154] fix: for_argument processes each argument, no matter
 how it is given

---
 satella/coding/decorators/arguments.py | 52 ++++++++++++-------
 satella/coding/misc.py                 | 71 --------------------------
 2 files changed, 34 insertions(+), 89 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 4e520c8..a7a50a4 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -5,7 +5,7 @@ import typing as tp
 from inspect import Parameter
 
 from satella.coding.decorators.decorators import wraps
-from satella.coding.misc import source_to_function, get_arguments, call_with_arguments, _get_arguments
+from satella.coding.misc import source_to_function, get_arguments, call_with_arguments
 from satella.coding.predicates import PredicateClass, build_structure
 from satella.coding.typing import T, Predicate
 
@@ -278,6 +278,25 @@ def copy_arguments(deep_copy: bool = False) -> tp.Callable:
     return outer
 
 
+def _get_operations(fun, t_ops, t_kwops) -> tp.Dict[str, tp.Callable]:
+    """Return what is to be called on each of the local variables of the function"""
+    t_ops = list(t_ops)
+    operations = {}
+    for param in inspect.signature(fun).parameters.values():
+        if param.kind == Parameter.VAR_POSITIONAL:
+            def op(values, ops=tuple(t_ops)):
+                return tuple(f(v) for v, f in zip(values, itertools.chain(ops, itertools.repeat(_NOP))))
+        elif param.kind == Parameter.VAR_KEYWORD:
+            def op(values):
+                return {k: t_kwops.get(k, _NOP)(v) for k, v in values.items()}
+        elif param.kind != Parameter.KEYWORD_ONLY and t_ops:
+            op = t_ops.pop(0)
+        else:
+            op = t_kwops.get(param.name, _NOP)
+        operations[param.name] = op
+    return operations
+
+
 def for_argument(*t_ops: ForArgumentArg, **t_kwops: ForArgumentArg):
     """
     Calls a callable for each of the arguments. Pass None if you do not wish to process given
@@ -334,6 +353,14 @@ def for_argument(*t_ops: ForArgumentArg, **t_kwops: ForArgumentArg):
             t_kwops[key] = source_to_function(value)
 
     def outer(fun):
+        operations = _get_operations(fun, t_ops, t_kwops)
+
+        def call_by_name(*args, **kwargs):
+            arguments = get_arguments(fun, *args, **kwargs)
+            for arg_name, v in arguments.items():
+                arguments[arg_name] = operations[arg_name](v)
+            return returns(call_with_arguments(fun, arguments))
+
         comparison = False
         # Check whether this function has any default arguments
         for param in inspect.signature(fun).parameters.values():
@@ -344,28 +371,17 @@ def for_argument(*t_ops: ForArgumentArg, **t_kwops: ForArgumentArg):
             except (AttributeError, TypeError):
                 comparison = True
                 break
+            if param.kind == Parameter.POSITIONAL_OR_KEYWORD and param.name in t_kwops:
+                comparison = True       # it can be given as a positional argument as well
+                break
 
         if comparison:
-            @wraps(fun)
-            def inner(*args, **kwargs):
-                dict_operations = _get_arguments(fun, True, *t_ops, **t_kwops)
-                dict_values = get_arguments(fun, *args, **kwargs)
-                arguments = {}
-                for arg_name in dict_values:
-                    v = dict_values[arg_name]
-                    if arg_name in dict_operations:
-                        f = dict_operations[arg_name]
-                        if callable(f) and f is not None:
-                            v = f(v)
-
-                    arguments[arg_name] = v
-
-                return returns(call_with_arguments(fun, arguments))
+            inner = wraps(fun)(call_by_name)
         else:
             @wraps(fun)
             def inner(*args, **kwargs):
-                # add extra 'None' argument if unbound method
-                assert len(args) >= len(t_ops), 'Invalid number of arguments'
+                if len(args) < len(t_ops):
+                    return call_by_name(*args, **kwargs)    # some are given as keyword arguments
                 a = fun(*((_NOP if op2 is None else op2)(arg) for arg, op2 in
                           itertools.zip_longest(args, t_ops, fillvalue=None)),
                         **{k: t_kwops.get(k, _NOP)(v) for k, v in kwargs.items()})
diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 351f9b7..e846799 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -5,8 +5,6 @@ from inspect import Parameter, signature
 from queue import Empty
 from queue import Queue
 
-from satella.coding.recast_exceptions import rethrow_as
-
 
 def enum_value(value):
     """
@@ -274,75 +272,6 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
     return dict(bound.arguments)
 
 
-# pylint: disable=too-many-locals
-@rethrow_as(IndexError, TypeError)
-def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwargs):
-    """
-    :param special_behaviour: enable special behaviour to be used in for_arguments
-    """
-    sig = signature(function)
-    params = sig.parameters.values()
-    local_vars = {}
-
-    positionals = [param for param in reversed(params) if
-                   param.kind in (Parameter.POSITIONAL_OR_KEYWORD, Parameter.POSITIONAL_ONLY, Parameter.VAR_POSITIONAL)]
-    args = list(reversed(args))
-
-    arguments_left = set(param.name for param in params)
-    while positionals:
-        arg = positionals.pop()
-        arg_kind = arg.kind
-        arg_name = arg.name
-        if arg_kind == Parameter.VAR_POSITIONAL and not special_behaviour:
-            local_vars[arg_name] = tuple(reversed(args))
-        else:
-            try:
-                v = args.pop()
-                arguments_left.remove(arg_name)
-            except IndexError:
-                try:
-                    if arg.default != Parameter.empty:
-                        raise AttributeError()
-                    break
-                except (AttributeError, TypeError):
-                    v = arg.default
-            local_vars[arg_name] = v
-
-    keywords = [param for param in params if param.kind in (Parameter.POSITIONAL_OR_KEYWORD,
-                                                            Parameter.KEYWORD_ONLY,
-                                                            Parameter.VAR_KEYWORD)
-                and param.name in arguments_left]
-
-    for keyword in keywords:
-        keyword_name = keyword.name
-        if keyword.kind == Parameter.VAR_KEYWORD and not special_behaviour:
-            local_vars[keyword_name] = kwargs
-            continue
-        try:
-            v = kwargs.pop(keyword_name)
-        except KeyError:
-            try:
-                if Parameter.empty == keyword.default:
-                    if not special_behaviour:
-                        raise TypeError('Not enough keyword arguments')
-                    v = None
-                else:
-                    v = keyword.default
-            except (AttributeError, TypeError):
-                continue  # comparison was impossible
-
-        local_vars[keyword_name] = v
-
-    for param in params:
-        param_name = param.name
-        if param_name not in local_vars:
-            if not special_behaviour:
-                raise TypeError('Not enough keyword arguments')
-            local_vars[param_name] = None
-
-    return local_vars
-
-
 def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any]) -> tp.Any:
     """
     Call a function, but with giving it arguments via a dictionary.
-- 
2.43.0


From 71d5b0e5c600b32149e7ad9015add2ac842b032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 084/154] fix: chain_callables does not call a callable again
 because it raised a TypeError

---
 satella/coding/misc.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index e846799..bf00559 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -151,6 +151,23 @@ def update_if_not_none(dictionary: tp.Dict, key: tp.Hashable, value) -> tp.Dict:
     return update_key_if_none(dictionary, key, value)
 
 
+def _takes_no_arguments(fun: tp.Callable) -> bool:
+    """Can this callable be called only without an argument?"""
+    try:
+        sig = signature(fun)
+    except (TypeError, ValueError):     # not known
+        return False
+    try:
+        sig.bind(None)
+    except TypeError:
+        try:
+            sig.bind()
+        except TypeError:
+            return False
+        return True
+    return False
+
+
 def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callable:
     """
     Link two callables together. callable2, if it takes an argument, will receive
@@ -163,14 +180,9 @@ def chain_callables(callable1: tp.Callable, callable2: tp.Callable) -> tp.Callab
 
     def inner(*args, **kwargs):
         res = callable1(*args, **kwargs)
-        try:
-            res = callable2(res)
-        except TypeError as e:
-            if 'positional arguments but' in e.args[0] and 'was given' in e.args[0] and 'takes' in e.args[0]:
-                res = callable2()
-            else:
-                raise
-        return res
+        if _takes_no_arguments(callable2):
+            return callable2()
+        return callable2(res)
 
     return inner
 
-- 
2.43.0


From 8a72b498a69e09d1ae2e718eaa5faa568aa3651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 085/154] fix: build_structure builds all elements of a dict,
 and strings within a structure

---
 satella/coding/predicates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 17d0901..a9343d1 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -264,8 +264,9 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 key = build_structure(key, argument, None, True)
                 value = build_structure(value, argument, None, True)
                 new_dict[key] = value
-                f = new_dict
-                break
+            f = new_dict
+        elif isinstance(struct, str):
+            f = struct
         elif isinstance(struct, tp.Sequence):
             new_seq = []
             for elem in struct:
-- 
2.43.0


From 369c3bba73e2ab5ddb31bbdcdda2be799769b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 086/154] fix: BinaryParser never reads past the end of its
 stream or window

---
 satella/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index b2e5d9b..58bf47f 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,7 +40,8 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = length or len(b_stream)
+        available = len(b_stream) - offset
+        self.length = available if length is None else min(length, available)
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
 
-- 
2.43.0


From 89b34f3473c92edafa780431ff5429d650d7faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 087/154] fix: bytes() of a BinaryParser of a bytearray does
 not raise TypeError

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index 58bf47f..a6190b5 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -46,7 +46,7 @@ class BinaryParser:
             raise NotEnoughBytes('Offset larger than the stream!')
 
     def __bytes__(self) -> bytes:
-        return self.b_stream[self.init_ofs:self.init_ofs + self.length]
+        return bytes(self.b_stream[self.init_ofs:self.init_ofs + self.length])
 
     def skip(self, n: int) -> None:
         """
-- 
2.43.0


From 8cce6ee91a7e5de9d636dc9bc675f543f90143c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 088/154] fix: BinaryParser.get_struct accepts structs in
 native byte order and standard size

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index a6190b5..ba21a84 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -136,7 +136,7 @@ class BinaryParser:
         """
         st = self._to_struct(st)
 
-        if st.format[0] in {'>', '<', '!', '@'}:
+        if st.format[0] in {'>', '<', '!', '@', '='}:
             assert len(st.format) == 2, 'Format must span at most 1 character, use ' \
                                         'get_structs for multiples!'
         else:
-- 
2.43.0


From 7e86cb1b52120d3b9c483ddb17f34fadc11e8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 089/154] fix: chain does not yield an element that raises
 TypeError while it is iterated over

---
 satella/coding/iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..f713ccd 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -15,9 +15,11 @@ def chain(*args) -> tp.Iterator:
     """
     for elem in args:
         try:
-            yield from iter(elem)
+            iterator = iter(elem)
         except TypeError:
             yield elem
+        else:
+            yield from iterator
 
 
 def exhaust(iterator: tp.Iterator) -> None:
-- 
2.43.0


From c31918e89c6d2d3cac601dfd79112262b699c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 090/154] fix: SelfClosingGenerator.send returns what the
 generator yields

---
 satella/coding/iterators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index f713ccd..706cd05 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -61,8 +61,12 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any) -> tp.Any:
+        try:
+            return self.generator.send(obj)
+        except StopIteration:
+            self.stopped = True
+            raise
 
     def __next__(self):
         try:
-- 
2.43.0


From c08208c75d41144d61d6b726772674134ac0213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 091/154] fix: hint_with_length of a generator function keeps
 its length factory

---
 satella/coding/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 706cd05..1401245 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -123,7 +123,7 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From 4f61037b319265829b36e187d789f9859471b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 092/154] fix: is_last of an empty sequence does not raise
 RuntimeError

---
 satella/coding/sequences/sequences.py | 355 +++++++++++++++++++++++++-
 1 file changed, 354 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 99be8c8..3cf1956 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1,354 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    ret_var = next(iterable)    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copy
+import typing as tp
+
+from satella.coding.decorators.decorators import wraps
+from satella.coding.recast_exceptions import rethrow_as
+from .iterators import n_th
+from ..typing import T, Iteratable, NoArgCallable, Predicate
+
+
+def infinite_iterator(returns: tp.Optional[T] = None,
+                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:
+    """
+    Return an infinite number of objects.
+
+    :param returns: object to return. Note that this will be this very object, it will
+        not be copied.
+    :param return_factory: a callable that takes 0 args and returns an element to return.
+    :return: an infinite iterator of provided values
+    """
+    while True:
+        if returns is None:
+            yield None if return_factory is None else return_factory()
+        else:
+            yield returns
+
+
+def make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:
+    """
+    Make a list consisting of n times element. Element will be copied via
+    copy.copy before adding to list.
+
+    :param element: element
+    :param n: times to repeat the element
+    :param deep_copy: whether to use copy.deepcopy instead of copy.copy
+    :return: list of length n
+    """
+    output = []
+
+    if deep_copy:
+        copy_op = copy.deepcopy
+    else:
+        copy_op = copy.copy
+
+    for _ in range(n):
+        output.append(copy_op(element))
+    return output
+
+
+# shamelessly copied from
+# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5
+def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:
+    """
+    Return every element of the list, alongside a flag telling is this the last element.
+
+    Use like:
+
+    >>> for is_last, element in is_last(my_list):
+    >>>     if is_last:
+    >>>         ...
+
+    :param lst: list to iterate thru
+    :return: a p_gen returning (bool, T)
+
+    Note that this returns a nice, O(1) iterator.
+    """
+    iterable = iter(lst)
+    try:
+        ret_var = next(iterable)
+    except StopIteration:
+        return
+    for val in iterable:
+        yield False, ret_var
+        ret_var = val
+    yield True, ret_var
+
+
+def add_next(lst: Iteratable,
+             wrap_over: bool = False,
+             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:
+    """
+    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.
+
+    The last element will be the last element alongside with a None, if wrap_over is False, or the
+    first element if wrap_over was True
+
+    Example:
+
+    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]
+    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]
+
+    :param lst: iterable to iterate over
+    :param wrap_over: whether to attach the first element to the pair of the last element instead
+        of None
+    :param skip_last: if this is True, then last element, alongside with a None, won't be output
+    """
+    iterator = iter(lst)
+    try:
+        first_val = prev_val = next(iterator)
+    except StopIteration:
+        return
+    for val in iterator:
+        yield prev_val, val
+        prev_val = val
+    if wrap_over:
+        yield prev_val, first_val
+    else:
+        if not skip_last:
+            yield prev_val, None
+
+
+def half_cartesian(seq: tp.Iterable[T],
+                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:
+    """
+    Generate half of the Cartesian product of both sequences.
+
+    Useful when you have a commutative operation that you'd like to execute on both elements
+    (eg. checking for collisions).
+
+    Example:
+
+    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \
+    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]
+
+    :param seq: The sequence
+    :param include_same_pairs: if True, then pairs returning two of the same objects will be
+        returned. For example, if False, the following will be true:
+
+    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \
+    >>>     [(1, 2), (1, 3), (2, 3)]
+
+    """
+    for i, elem1 in enumerate(seq):
+        for j, elem2 in enumerate(seq):
+            if include_same_pairs:
+                if j >= i:
+                    yield elem1, elem2
+            else:
+                if j > i:
+                    yield elem1, elem2
+
+
+def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:
+    """
+    Slice an iterable into lists containing at most len entries.
+
+    Eg.
+
+    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],
+    >>>                                                                     [7, 8, 9], [10]]
+
+    This correctly detects sequences, and uses an optimized variant via slicing if
+    a sequence is passed.
+
+    You can safely pass ranges
+
+    :param length: p_len for the returning sequences
+    :param seq: sequence to split
+    """
+    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):
+        i = 0
+        while i < len(seq):
+            yield seq[i:i + length]
+            i += length
+    else:
+        entries = []
+        for elem in seq:
+            if len(entries) == length:
+                yield entries
+                entries = [elem]
+            else:
+                entries.append(elem)
+
+        if entries:
+            yield entries
+
+
+def filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:
+    """
+    Return all elements, as a list, that are not None
+
+    :param y: a sequence of items
+    :return: a list of all subelements, in order, that are not None
+    """
+    output = []
+    for item in y:
+        if item is not None:
+            output.append(item)
+    return output
+
+
+def filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:
+    """
+    Return all elements, as a list, that are True
+
+    :param y: a sequence of items
+    :return: a list of all subelements, in order, that are not None
+    """
+    output = []
+    for item in y:
+        if item:
+            output.append(item)
+    return output
+
+
+@rethrow_as(IndexError, ValueError)
+def index_of_max(seq: tp.Sequence[T]) -> int:
+    """
+    Return the index of the maximum element
+
+    :param seq: sequence to examine
+    :return: index of the maximum element
+    :raise ValueError: sequence was empty
+    """
+    max_index = 0
+    max_elem = seq[0]
+    for i, elem in enumerate(seq):
+        if elem > max_elem:
+            max_index = i
+            max_elem = elem
+    return max_index
+
+
+def index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:
+    """
+    Return an index of first met element that calling predicate on it returns True
+
+    :param predicate: predicate to apply
+    :param seq: sequence to examine
+    :return: index of the element
+    :raises ValueError: if no element found
+    """
+    i = 0
+    for elem in seq:
+        if predicate(elem):
+            return i
+        i += 1
+    raise ValueError('Element not found')
+
+
+class Multirun:
+    """
+    A class to launch the same operation on the entire sequence.
+
+    Consider:
+
+    >>> class Counter:
+    >>>     def __init__(self, value=0):
+    >>>         self.count = value
+    >>>     def add(self, v):
+    >>>         self.count += 1
+    >>>     def __eq__(self, other):
+    >>>          return self.count == other.count
+    >>>     def __iadd__(self, other):
+    >>>         self.add(other)
+    >>> a = [Counter(), Counter()]
+
+    The following:
+
+    >>> for b in a:
+    >>>     b.add(2)
+
+    Can be replaced with
+
+    >>> Multirun(a).add(2)
+
+    And the following:
+
+    >>> for b in a:
+    >>>     b += 3
+
+    With this
+
+    >>> b = Mulirun(a)
+    >>> b += 3
+
+    Furthermore note that:
+
+    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]
+
+    :param sequence: sequence to execute these operations for
+    :param dont_return_list: the operation won't return a list if this is True
+    """
+    __slots__ = 'sequence', 'dont_return_list'
+
+    def __bool__(self) -> bool:
+        return bool(self.sequence)
+
+    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):
+        self.sequence = sequence
+        self.dont_return_list = dont_return_list
+
+    def __iter__(self):
+        return iter(self.sequence)
+
+    def __getattr__(self, item):
+        def inner(*args, **kwargs):
+            if not self.dont_return_list:
+                results = []
+                for element in self:
+                    getattr(element, item)(*args, **kwargs)
+                    results.append(element)
+                return results
+            else:
+                for element in self:
+                    getattr(element, item)(*args, **kwargs)
+
+        # Take care: the array might just be empty...
+        try:
+            fun = getattr(n_th(self), item)
+            inner = wraps(fun)(inner)
+        except IndexError:
+            pass
+
+        return inner
+
+    def __iadd__(self, other):
+        for element in self:
+            element += other
+        return self
+
+    def __isub__(self, other):
+        for element in self:
+            element -= other
+        return self
+
+    def __imul__(self, other):
+        for element in self:
+            element *= other
+        return self
+
+    def __itruediv__(self, other):
+        for element in self:
+            element /= other
+        return self
+
+    def __ifloordiv__(self, other):
+        for element in self:
+            element //= other
+        return self
+
+    def __ilshift__(self, other):
+        for element in self:
+            element <<= other
+        return self
+
+    def __irshift__(self, other):
+        for element in self:
+            element >>= other
+        return self
+
+    def __ipow__(self, other):
+        for element in self:
+            element **= other
+        return self
-- 
2.43.0


From 707ff728e972a3599d1e23213a79f3777113f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 093/154] fix: half_cartesian gives all pairs of an iterator

---
 satella/coding/sequences/sequences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 3cf1956..1e30624 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -129,6 +129,8 @@ def half_cartesian(seq: tp.Iterable[T],
     >>>     [(1, 2), (1, 3), (2, 3)]
 
     """
+    if iter(seq) is seq:
+        seq = list(seq)     # it can be iterated over only once
     for i, elem1 in enumerate(seq):
         for j, elem2 in enumerate(seq):
             if include_same_pairs:
-- 
2.43.0


From d19670955f4d0680f4ad561cc41b9a95f32d3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 094/154] fix: Multirun of an iterator does not skip its first
 element

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 1e30624..56d1d18 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -288,7 +288,7 @@ class Multirun:
         return bool(self.sequence)
 
     def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):
-        self.sequence = sequence
+        self.sequence = list(sequence) if iter(sequence) is sequence else sequence
         self.dont_return_list = dont_return_list
 
     def __iter__(self):
-- 
2.43.0


From 0d9197fe5a855ee20c8f58d089cf4c09f4246099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 095/154] fix: AlreadySeen accepts both hashable and unhashable
 objects

---
 satella/coding/sequences/iterators.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 706ab49..acd519c 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -217,10 +217,11 @@ class AlreadySeen(tp.Generic[K]):
     >>>     if als.is_unique(elem):
     >>>         ... process the element ...
     """
-    __slots__ = ('set',)
+    __slots__ = 'set', 'list'
 
     def __init__(self):
-        self.set = None  # type: tp.Union[list, set]
+        self.set = set()
+        self.list = []      # those that are not hashable
 
     def is_unique(self, key: K) -> bool:
         """
@@ -233,21 +234,17 @@ class AlreadySeen(tp.Generic[K]):
         """
         try:
             hash(key)
-            if self.set is None:
-                self.set = set()
-            if key in self.set:
-                return False
-            self.set.add(key)
-            return True
         except TypeError:
             warnings.warn('Passed argument is not hashable, you pay with '
                           'O(n^2) complexity!', RuntimeWarning)
-            if self.set is None:
-                self.set = []
-            if key in self.set:
+            if key in self.list or key in list(self.set):
                 return False
-            self.set.append(key)
+            self.list.append(key)
             return True
+        if key in self.set or key in self.list:
+            return False
+        self.set.add(key)
+        return True
 
 
 def unique(lst: Iteratable) -> tp.Iterator[T]:
-- 
2.43.0


From 60e5b7dc924d8413642ac978c8630a427568204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 096/154] fix: shift and zip_shifted shift by more than the
 length of the sequence

---
 satella/coding/sequences/iterators.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index acd519c..641c175 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -402,15 +402,25 @@ def shift(iterable_: tp.Union[tp.Reversible[T], Iteratable],
         iterator = iter(iterable_)
         elements = []
         for i in range(shift_factor):
-            elements.append(next(iterator))
+            try:
+                elements.append(next(iterator))
+            except StopIteration:       # shifted all around
+                if not elements:
+                    break
+                shift_factor %= len(elements)
+                return iter(elements[shift_factor:] + elements[:shift_factor])
         return itertools.chain(iterator, elements)
     else:
         if hasattr(iterable_, '__reversed__'):
             elements = take_n(reversed(iterable_), -shift_factor)
+            if elements:
+                elements = elements[:(-shift_factor - 1) % len(elements) + 1]
             elements = reversed(elements)
             return other_sequence_no_longer_than(iterable_, itertools.chain(elements, iterable_))
         else:
             iterator = list(iterable_)
+            if iterator:
+                shift_factor %= -len(iterator)
             iterator = iterator[shift_factor:] + iterator[:shift_factor]  # shift's already negative
             return iterator
 
-- 
2.43.0


From c83069cb9a5f8768bcc410e32be91a5fd026e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 097/154] fix: skip_first, stop_after and take_n accept
 sequences shorter than asked for

---
 satella/coding/sequences/iterators.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 641c175..221ad3e 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -480,7 +480,10 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        next(iterator)
+        try:
+            next(iterator)
+        except StopIteration:
+            return
     yield from iterator
 
 
@@ -630,7 +633,11 @@ def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        yield next(iterator)
+        try:
+            elem = next(iterator)
+        except StopIteration:
+            return
+        yield elem
 
 
 @for_argument(iter)
@@ -851,10 +858,12 @@ def take_n(iterator: Iteratable, n: int, skip: int = 0) -> tp.List[T]:
     :param skip: elements from the start to skip
     :return: list of p_len n (or shorter)
     """
-    for i in range(skip):
-        next(iterator)
-
     output = []
+    for i in range(skip):
+        try:
+            next(iterator)
+        except StopIteration:
+            return output
     for i in range(n):
         try:
             output.append(next(iterator))
-- 
2.43.0


From 1df03225b3c69fc799a09d154e5974464f71788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 098/154] fix: ListWrapperIterator can be iterated over again,
 and looked into from its end

---
 satella/coding/sequences/iterators.py | 29 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 221ad3e..9ee1073 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -490,8 +490,8 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
 class _ListWrapperIteratorIterator(tp.Iterator[T]):
     __slots__ = 'parent', 'pos'
 
-    def __init__(self, parent: Iteratable[T]):
-        self.parent = parent if isinstance(parent, tp.Iterator) else iter(parent)
+    def __init__(self, parent: 'ListWrapperIterator[T]'):
+        self.parent = parent
         self.pos = 0
 
     def __length_hint__(self) -> int:
@@ -501,10 +501,10 @@ class _ListWrapperIteratorIterator(tp.Iterator[T]):
         return self
 
     def __next__(self) -> T:
+        self.parent.advance_to_item(self.pos + 1)
         if self.pos >= len(self.parent.list):
-            item = self.parent.next()
-        else:
-            item = self.parent.list[self.pos]
+            raise StopIteration()
+        item = self.parent.list[self.pos]
         self.pos += 1
         return item
 
@@ -529,12 +529,15 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
     __slots__ = 'iterator', 'exhausted', 'list', 'internal_pointer'
 
     def __contains__(self, item: T) -> bool:
-        if item not in self.list and self.exhausted:
-            return False
-        for item2 in itertools.chain(self.list, self):
+        if item in self.list:
+            return True
+        while True:
+            try:
+                item2 = next(self)
+            except StopIteration:
+                return False
             if item2 == item:
                 return True
-        return False
 
     def __init__(self, iterator: Iteratable[T]):
         self.iterator = iterator if isinstance(iterator, tp.Iterator) else iter(iterator)
@@ -576,8 +579,12 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         :raises IndexError: invalid index
         """
         if isinstance(item, int):
-            if len(self.list) < item + 1:
+            if item < 0:
+                self.exhaust()
+            elif len(self.list) < item + 1:
                 self.advance_to_item(item + 1)
+        elif item.stop is None or item.stop < 0 or (item.start or 0) < 0 or (item.step or 1) < 0:
+            self.exhaust()
         else:
             self.advance_to_item(item.stop)
         return self.list[item]
@@ -612,7 +619,7 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         """
         Return a brand new iterator, that will use this iterator
         """
-        return self
+        return _ListWrapperIteratorIterator(self)
 
 
 @silence_excs(StopIteration)
-- 
2.43.0


From 813ea00e89631d29c80589f201fb59fe6d9198ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:01 +0000
Subject: [PATCH 099/154] fix: group_quantity accepts a deque, which cannot be
 sliced

---
 satella/coding/sequences/sequences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 56d1d18..ea48d6e 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1,3 +1,4 @@
+import collections
 import copy
 import typing as tp
 
@@ -158,7 +159,7 @@ def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:
     :param length: p_len for the returning sequences
     :param seq: sequence to split
     """
-    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):
+    if isinstance(seq, tp.Sequence) and not isinstance(seq, (range, collections.deque)):
         i = 0
         while i < len(seq):
             yield seq[i:i + length]
-- 
2.43.0


From c2ad6f0cc684a5c00801afd1594e08a3ed84b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:01 +0000
Subject: [PATCH 100/154] fix: merge_series of a series that starts later than
 the others advance

---
 satella/coding/transforms/merger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 70873b7..edf8fa3 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -79,6 +79,8 @@ class merge_series:
                 if self.next_preloaded_values[i][0] > for_ts:
                     return False
             else:
+                if self.next_preloaded_values[i][0] > for_ts:
+                    return False    # this series has not started yet
                 try:
                     while not (self.next_preloaded_values[i][0] <= for_ts
                                < self.super_next_preloaded_values[i][0]):
-- 
2.43.0


From e4dda916694c54f9b4f426510e42ab191ef4085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:01 +0000
Subject: [PATCH 101/154] fix: merge_list compares keys only, and merges any
 number of equal ones

---
 satella/coding/transforms/merge_list.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index c47d8f1..1c78924 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -36,7 +36,8 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
 
         for i, it in enumerate(self.its):
             try:
-                self.heap.push((*next(it), i))
+                k, v = next(it)
+                self.heap.push((k, i, v))
                 self.available_lists.add(i)
             except StopIteration:
                 pass
@@ -49,15 +50,16 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
         if self.closed:
             raise StopIteration()
 
-        try:
-            k2, v2, i2 = self.pop()
-        except IndexError:
-            self.closed = True
-            return self.k, self.v
+        while True:
+            try:
+                k2, v2, i2 = self.pop()
+            except IndexError:
+                self.closed = True
+                return self.k, self.v
 
-        if k2 == self.k:
+            if k2 != self.k:
+                break
             self.v = self.merge_func(self.v, v2)
-            return next(self)
 
         try:
             return self.k, self.v
@@ -65,11 +67,11 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             self.k, self.v, self.i = k2, v2, i2
 
     def pop(self):
-        k, v, i = self.heap.pop()
+        k, i, v = self.heap.pop()
         if i in self.available_lists:
             try:
                 k2, v2 = next(self.its[i])
-                self.heap.push((k2, v2, i))
+                self.heap.push((k2, i, v2))
             except StopIteration:
                 self.available_lists.remove(i)
         return k, v, i
-- 
2.43.0


From 084b972672783ca6ffe3134f54ce1918b6928805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:01 +0000
Subject: [PATCH 102/154] fix: unpack_dict does not take a KeyError of
 map_through for a missing key

---
 satella/coding/transforms/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index b87b5a0..7b8b44d 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -44,12 +44,13 @@ def unpack_dict(dct: tp.Dict[K, V], *args: K,
     """
     for key in args:
         try:
-            yield map_through(dct[key])
+            value = dct[key]
         except KeyError:
-            if not raise_if_not_found:
-                yield None
-            else:
+            if raise_if_not_found:
                 raise
+            yield None
+        else:
+            yield map_through(value)
 
 
 def none_if_false(y: tp.Any) -> tp.Optional[tp.Any]:
-- 
2.43.0


From 6ca634b7d1d2d04383f1ea9245e7a49c8570e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:01 +0000
Subject: [PATCH 103/154] fix: intify raises ValueError for infinity

---
 satella/coding/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index 7b8b44d..8bb7ce2 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -150,7 +150,7 @@ def intify(v: tp.Any) -> int:
 
     try:
         return int(v)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         try:
             return len(v)
         except (AttributeError, TypeError, ValueError):
-- 
2.43.0


From 929fbdb0bcd5b19dd1f85c37fdfc024442bda999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:01 +0000
Subject: [PATCH 104/154] fix: ~ in place of not negates a predicate, as
 documented

---
 satella/coding/predicates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index a9343d1..ddcd774 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -67,6 +67,10 @@ def _has_keys(a: tp.Container, keys) -> bool:
     return True
 
 
+def _invert(a):
+    return not a if isinstance(a, bool) else operator.invert(a)
+
+
 def _one_of(a, values: tp.Container) -> bool:
     return a in values
 
@@ -225,7 +229,7 @@ class PredicateClass:
     __rmod__ = make_operation_two_args(operator.mod, swap_order=True)
     __rpow__ = make_operation_two_args(operator.pow, swap_order=True)
     __neg__ = make_operation_single_arg(operator.neg)
-    __invert__ = make_operation_single_arg(operator.invert)
+    __invert__ = make_operation_single_arg(_invert)
     __abs__ = make_operation_single_arg(abs)
 
     def __hash__(self) -> int:
-- 
2.43.0


From 6428ee179417b99896239f2df4ab5cc484477a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:32 +0000
Subject: [PATCH 105/154] fix: jsonify of enums with other values, of tuples as
 keys, and of objects that str() fails for

---
 satella/coding/transforms/jsonify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/transforms/jsonify.py b/satella/coding/transforms/jsonify.py
index 1b4184f..7107d9a 100644
--- a/satella/coding/transforms/jsonify.py
+++ b/satella/coding/transforms/jsonify.py
@@ -23,19 +23,22 @@ def jsonify(data: tp.Any) -> tp.Optional[tp.Union[str, int, float, list, dict]]:
     elif isinstance(data, (int, float, str)):
         v = data
     elif isinstance(data, enum.Enum):
-        v = data.value
+        v = jsonify(data.value)
     elif isinstance(data, JSONAble):
         v = jsonify(data.to_json())
     elif isinstance(data, tp.Mapping):
         new_mapping = {}
         for key in data:
-            new_mapping[jsonify(key)] = jsonify(data[key])
+            new_key = jsonify(key)
+            if isinstance(new_key, (list, dict)):   # JSON does not allow these as keys
+                new_key = str(key)
+            new_mapping[new_key] = jsonify(data[key])
         v = new_mapping
     elif isinstance(data, (tp.Iterable, tp.Iterator)):
         v = [jsonify(elem) for elem in data]
     else:
         try:
             v = str(data)
-        except TypeError:
+        except Exception:   # pylint: disable=broad-except
             v = repr(data)
     return v
-- 
2.43.0


From 630fcfdf79d9659bb4216941f2d0908734d09f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 106/154] fix: the arguments of locking a dataset concern only
 those who gave them

---
 satella/coding/concurrent/locked_dataset.py | 35 +++++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 32c92be..0a0b55d 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -36,12 +36,11 @@ class LockedDataset:
     """
 
     class InternalDataset:
-        __slots__ = ('lock', 'locked', 'args')
+        __slots__ = ('lock', 'locked')
 
         def __init__(self):
             self.lock = threading.Lock()
             self.locked = False
-            self.args = ()
 
     def __init__(self):
         self.__internal = LockedDataset.InternalDataset()  # type: LockedDataset.InternalDataset
@@ -81,16 +80,10 @@ class LockedDataset:
         return super(LockedDataset, self).__setattr__(key, value)
 
     def __call__(self, blocking: bool = True, timeout: float = -1):
-        _get_internal(self).args = blocking, timeout
-        return self
+        return _Locking(self, blocking, timeout)
 
     def __enter__(self):
-        args = _get_internal(self).args
-
-        if not _get_internal(self).lock.acquire(*args):
-            raise WouldWaitMore('Resource is still locked')
-        _get_internal(self).locked = True
-        return self
+        return _Locking(self).__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         _get_internal(self).locked = False
@@ -98,5 +91,27 @@ class LockedDataset:
         return False
 
 
+class _Locking:
+    """
+    Lock a dataset with given arguments. These are not kept in the dataset, as they
+    concern only the one who has given them.
+    """
+    __slots__ = ('dataset', 'args')
+
+    def __init__(self, dataset: LockedDataset, *args):
+        self.dataset = dataset
+        self.args = args
+
+    def __enter__(self) -> LockedDataset:
+        internal = _get_internal(self.dataset)
+        if not internal.lock.acquire(*self.args):
+            raise WouldWaitMore('Resource is still locked')
+        internal.locked = True
+        return self.dataset
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        return self.dataset.__exit__(exc_type, exc_val, exc_tb)
+
+
 def _get_internal(self):
     return super(LockedDataset, self).__getattribute__('_LockedDataset__internal')
-- 
2.43.0


From d6b3e24027a974b253019ca0079cfe9e3cced482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:22 +0000
Subject: [PATCH 107/154] fix: a full SliceableDeque of limited length accepts
 elements, as a deque does

---
 satella/coding/structures/sorted_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index ed5e151..ffb5d3b 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -105,6 +105,9 @@ class SliceableDeque(collections.abc.MutableSequence, tp.Generic[T]):
     def insert(self, i: int, item: T):
         self.deque.insert(i, item)
 
+    def append(self, item: T) -> None:
+        self.deque.append(item)     # drops the first element of a full deque
+
     def __init__(self, *args, **kwargs):
         self.deque = collections.deque(*args, **kwargs)
 
-- 
2.43.0


From 063422b97075627246634ffe4d8c408fa2e7ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:22 +0000
Subject: [PATCH 108/154] fix: SliceableDeques and sorted lists can be copied

---
 satella/coding/structures/sorted_list.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index ffb5d3b..c3e3010 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -129,7 +129,12 @@ class SliceableDeque(collections.abc.MutableSequence, tp.Generic[T]):
     def __contains__(self, item: T) -> bool:
         return item in self.deque
 
+    def __copy__(self) -> 'SliceableDeque[T]':
+        return SliceableDeque(self.deque, self.deque.maxlen)
+
     def __getattr__(self, item: str):
+        if item == 'deque':     # not constructed yet, as while being copied
+            raise AttributeError(item)
         return getattr(self.deque, item)
 
     def __getitem__(self, item) -> tp.Union[tp.Iterator[T], T]:
-- 
2.43.0


From aae6dac391b1fbadbd4ef6c4baa9a60914d41824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:22 +0000
Subject: [PATCH 109/154] fix: proxies can be copied and pickled

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 72aee9b..3506581 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -84,6 +84,8 @@ class Proxy(tp.Generic[T]):
             setattr(self.__obj, key, value)
 
     def __getattr__(self, item: str):
+        if item == '_Proxy__obj':   # not constructed yet, as while being copied
+            raise AttributeError(item)
         return getattr(self.__obj, item)
 
     def __delattr__(self, item) -> None:
-- 
2.43.0


From ae01d75031109a5281832d91cd420fcec13332b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 110/154] fix: assert_equal of containers and other objects
 raises Inequal, with the right reason

---
 satella/coding/deep_compare.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index 397d2fc..c23b285 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -38,16 +38,22 @@ def assert_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
+        if not isinstance(b, (set, frozenset)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         if a != b:
-            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
     elif isinstance(a, (list, tuple)):
+        if not isinstance(b, (list, tuple)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for c, d in zip(a, b):
             assert_equal(c, d)
     elif isinstance(a, dict):
+        if not isinstance(b, dict):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for key in a.keys():
-- 
2.43.0


From d6741c99e923779f429a480adce2ad08291c4ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 111/154] fix: an empty Optional compares false, as documented,
 in place of raising TypeError

---
 satella/coding/optionals.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index ea754b5..2da5d02 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -78,6 +78,22 @@ class Optional(Proxy[T]):
             return False
         return other == me
 
+    def __lt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me < other
+
+    def __le__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me <= other
+
+    def __gt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me > other
+
+    def __ge__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else me >= other
+
     def __getattr__(self, item):
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
-- 
2.43.0


From d28c3baffb207084196a7062f23a9734d43831a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 112/154] fix: Optionals can be copied

---
 satella/coding/optionals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index 2da5d02..da8de1c 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -95,6 +95,8 @@ class Optional(Proxy[T]):
         return False if me is None else me >= other
 
     def __getattr__(self, item):
+        if item == '_Proxy__obj':   # not constructed yet, as while being copied
+            raise AttributeError(item)
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
 
-- 
2.43.0


From b900e67bb7700c7fcd7f3d5c467132e77cb7dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 113/154] fix: merge_series gives each timestamp once

---
 satella/coding/transforms/merger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index edf8fa3..e2871fc 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -17,7 +17,7 @@ class merge_series:
     :raises ValueError: one of the given series was empty
     """
     __slots__ = ('series', 'next_preloaded_values', 'empty', 'timestamps',
-                 'super_next_preloaded_values')
+                 'super_next_preloaded_values', 'last_timestamp')
 
     def __init__(self, *series: tp.Iterator[tp.Tuple[float, tp.Any]]):
         self.series = [iter(x) for x in series]
@@ -29,6 +29,7 @@ class merge_series:
         else:
             self.empty = False
 
+        self.last_timestamp = None
         self.timestamps = SetHeap()
         timestamps = {x[0] for x in self.next_preloaded_values}
         max_ts = max(timestamps)
@@ -111,8 +112,9 @@ class merge_series:
 
         ts = self.timestamps.pop()
 
-        while not self.assert_preloaded(ts):
+        while ts == self.last_timestamp or not self.assert_preloaded(ts):
             ts = self.timestamps.pop()  # throws IndexError
+        self.last_timestamp = ts
 
         output = (ts, *(v[1] for v in self.next_preloaded_values))
         return output
-- 
2.43.0


From f311d8feacb82316ae4d863b5ccd559101455053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 114/154] fix: counters report the timestamp of their last
 update

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..a1231f4 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -164,7 +164,7 @@ class LeafMetric(Metric):
 
     def to_metric_data(self) -> MetricDataCollection:
         return MetricDataCollection(
-            MetricData(self.name, None, self.labels, internal=self.internal))
+            MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
 
     def append_child(self, metric: 'Metric'):
         raise TypeError('This metric cannot contain children!')
-- 
2.43.0


From 859b6784eb3288d469d83b7d80be8eacf2eb489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 115/154] fix: sub-metrics report the timestamp of their own
 last update

---
 satella/instrumentation/metrics/metric_types/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index a1231f4..541a34a 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -206,15 +206,14 @@ class EmbeddedSubmetrics(LeafMetric):
         else:
             return
 
-        if key in self.children_mapping:
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
-        else:
+        if key not in self.children_mapping:
             clone = self.clone(labels)
             self.children_mapping[key] = clone
             self.children.append(clone)
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
+        child = self.children_mapping[key]
+        child.last_updated = self.last_updated
+        # noinspection PyProtectedMember
+        child._handle(*args)
 
     def to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
-- 
2.43.0


From 78ce363e441e649352b2c9ae4c6a053f3286ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 116/154] fix: sub-metrics of an internal metric are internal

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 541a34a..d22dd3c 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -239,7 +239,7 @@ class EmbeddedSubmetrics(LeafMetric):
         """
 
         return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
-                              **self.kwargs)
+                              internal=self.internal, **self.kwargs)
 
 
 from .registry import register_metric
-- 
2.43.0


From cfa697b1c3c27da6c79fc8edb87be8321f890c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 117/154] fix: sums and counts of an internal histogram are
 internal

---
 .../metrics/metric_types/histogram.py                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..1ea0260 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -60,14 +60,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(),
+                                  self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From 96aa40001599309ce81cfd75423e00a462b13801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 118/154] fix: linkfail reports the status of each of its links

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..1fe5a1c 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -81,5 +81,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0


From 2588959266776c0b013757a4bb11bc504a5f6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 119/154] fix: linkfail reports data of labeled links

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index 1fe5a1c..34d7b8c 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -67,6 +67,8 @@ class LinkfailMetric(EmbeddedSubmetrics):
                     self.callback_on_offline(address, self.labels)
 
     def to_metric_data(self) -> MetricDataCollection:
+        if self.embedded_submetrics_enabled:
+            return super().to_metric_data()
         mdc = MetricDataCollection()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
-- 
2.43.0


From 77d141114a565077825970ef26775f31cd51db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 120/154] fix: a copy of a MetricDataCollection does not change
 with the original

---
 satella/instrumentation/metrics/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..1b38416 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -89,7 +89,7 @@ class MetricDataCollection(JSONAble):
             if isinstance(values[0], MetricData):
                 self.values = set(values)
             elif isinstance(values[0], MetricDataCollection):
-                self.values = values[0].values
+                self.values = values[0].values.copy()
             else:
                 self.values = set(values[0])
         else:
-- 
2.43.0


From 3b56461232f5e31d5739e98696e1a515ed95d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 121/154] fix: renamed metric data can be found in their
 collection

---
 satella/instrumentation/metrics/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1b38416..fe8a8a1 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -131,11 +131,14 @@ class MetricDataCollection(JSONAble):
         """Prefix every child with given prefix and return self"""
         for child in self.values:
             child.prefix_with(prefix)
+        self.values = set(list(self.values))  # names have changed, and hashes with them
+        return self
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
         for child in self.values:
             child.postfix_with(postfix)
+        self.values = set(list(self.values))  # names have changed, and hashes with them
         return self
 
     def __add_metric_data(self, other: MetricData):
-- 
2.43.0


From 4142ac1090cd1645b1f029114cf1cf17f8139e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 122/154] fix: MetricData.from_json does not consume its
 argument

---
 satella/instrumentation/metrics/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index fe8a8a1..e0294a8 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -58,6 +58,7 @@ class MetricData(JSONAble):
 
     @classmethod
     def from_json(cls, x: dict) -> 'MetricData':
+        x = dict(x)
         name = x.pop('_name')
         value = x.pop('_')
         timestamp = x.pop('_timestamp', None)
-- 
2.43.0


From 592fb0c03ae1d01d100ca4b943493a2764a1ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 123/154] fix: newlines in labels are escaped for Prometheus

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..2b3fe75 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -103,7 +103,7 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From 85f53c3ad1f7245e8f25c18bfdeb2cc27ee2846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 124/154] fix: prometheus.exports_per_time counts for all
 documented periods

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index 2b3fe75..ec46f27 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -64,7 +64,7 @@ class PrometheusHTTPExporterThread(TerminableThread):
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
-                                      time_unit_vector=[1, 20, 60])
+                                      time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
         self.httpd.server_bind()
-- 
2.43.0


From e953bfef8d19275e018d1f37e33453a693b43463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 125/154] fix: getMetric delivers keyword arguments to the last
 metric only, as documented

---
 satella/instrumentation/metrics/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..aed3127 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -40,15 +40,14 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                             None,
                             adjust_metric_level_for_root(metric_level,
                                                          metric_level_to_set_for_children),
-                            **kwargs)
+                            **(kwargs if metric_name == '' else {}))
             metric.level = MetricLevel.RUNTIME
             root_metric = metric
         elif metric_name == tentative_name:
             metric = METRIC_NAMES_TO_CLASSES[metric_type](name_part, root_metric,
                                                           metric_level, **kwargs)
         else:
-            metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
-                            **kwargs)
+            metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
         metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
-- 
2.43.0


From 653458a8b5c8706a5dca1244ace11b5f141766b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 126/154] fix: a metric that could not be hooked up is not
 registered

---
 satella/instrumentation/metrics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index aed3127..16e75f7 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -48,9 +48,9 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                                                           metric_level, **kwargs)
         else:
             metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
-        metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
-- 
2.43.0


From c4e2a706cd194a96ffeedfec6e3828258c1cacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 127/154] fix: a future can be measured by many metrics

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..a27f437 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -28,10 +28,10 @@ class MeasurableMixin:
             the value
         :param labels: extra labels to call handle() with
         """
-        future.old_value = value_getter()
+        old_value = value_getter()
 
         def on_future_done(fut: Future):
-            self.handle(logging_level, value_getter() - fut.old_value, **labels)
+            self.handle(logging_level, value_getter() - old_value, **labels)
 
         future.add_done_callback(on_future_done)
 
-- 
2.43.0


From ddf3b4fc0dd133204ce424640f32f4218973bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 128/154] fix: a measured generator returns its value

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index a27f437..7d7870e 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
-- 
2.43.0


From a2a3ceb7ed61ba9402b3b545c25297b48ddb4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 129/154] fix: entries_waiting of a metrified cache follows the
 queue

---
 satella/instrumentation/metrics/structures/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From c5a39df3d1cfdbbb2e5aa54d6106bd857639d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:35 +0000
Subject: [PATCH 130/154] fix: satella.configuration can be imported first

---
 satella/coding/predicates.py                          | 6 ++++--
 satella/coding/structures/dictionaries/dict_object.py | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index ddcd774..87a5a2d 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -2,7 +2,9 @@ import operator
 import typing as tp
 
 from satella.coding.typing import Predicate
-from satella.configuration.schema import Descriptor
+
+if tp.TYPE_CHECKING:
+    from satella.configuration.schema import Descriptor
 
 __all__ = ['x', 'build_structure', 'PredicateClass']
 
@@ -153,7 +155,7 @@ class PredicateClass:
         """
         return PredicateClass(self.operation)
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None, **kwargs):
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None, **kwargs):
         """
         Check if given value has the correct schema.
         The schema is the same as in
diff --git a/satella/coding/structures/dictionaries/dict_object.py b/satella/coding/structures/dictionaries/dict_object.py
index 38ef366..8049821 100644
--- a/satella/coding/structures/dictionaries/dict_object.py
+++ b/satella/coding/structures/dictionaries/dict_object.py
@@ -2,7 +2,9 @@ import copy
 import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
-from satella.configuration.schema import Descriptor, descriptor_from_dict
+if tp.TYPE_CHECKING:
+    from satella.configuration.schema import Descriptor
+
 from satella.exceptions import ConfigurationValidationError
 
 
@@ -46,7 +48,7 @@ class DictObject(dict):
     def __delattr__(self, key):
         del self[key]
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None,
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None,
                         **kwarg_schema) -> bool:
         """
         Check if this dictionary conforms to particular schema.
@@ -63,6 +65,8 @@ class DictObject(dict):
         if kwarg_schema:
             schema = kwarg_schema
 
+        from satella.configuration.schema import Descriptor, descriptor_from_dict
+
         if isinstance(schema, Descriptor):
             descriptor = schema
         else:
-- 
2.43.0


From bce499da2c773ab9f28251a28a3c37fb3ab4efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 131/154] fix: MergingSource leaves the configuration of its
 sources alone

---
 satella/configuration/sources/derivative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/sources/derivative.py b/satella/configuration/sources/derivative.py
index fac0f78..68ec583 100644
--- a/satella/configuration/sources/derivative.py
+++ b/satella/configuration/sources/derivative.py
@@ -1,3 +1,5 @@
+import copy
+
 from satella.coding.algos import merge_dicts
 from satella.exceptions import ConfigurationError
 from .base import BaseSource
@@ -96,7 +98,7 @@ class MergingSource(BaseSource):
                 else:
                     raise ConfigurationError('Invalid on_fail parameter %s' % (self.on_fail,))
             assert isinstance(p, dict), 'what was provided by the config was not a dict'
-            cfg = merge_dicts(cfg, p)
+            cfg = merge_dicts(cfg, copy.deepcopy(p))
             assert isinstance(cfg, dict), 'what merge_dicts returned wasn''t a dict'
 
         if not correct_sources and self.sources and self.fail_if_no_sources_are_correct:
-- 
2.43.0


From 42ba215950a4725639110e39538ce86e33561aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 132/154] fix: DirectorySource works with a relative directory

---
 satella/configuration/sources/file.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 9a1607e..07cad32 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -101,9 +101,7 @@ class DirectorySource(FileSource):
             else:
                 raise ConfigurationError(f'Directory {directory} does not exist')
 
-        for file_name in files:
-
-            fullname = os.path.join(directory, file_name)
+        for fullname in files:
             if os.path.isfile(fullname):
                 sources.append(FileSource(fullname, encoding=self.encoding,
                                           interpret_as=self.source_classes))
-- 
2.43.0


From 49726fd25715e4647349f63b5c7bb0464b2682fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 133/154] fix: load_source_from_dict returns a dict of unknown
 type as is

---
 satella/configuration/sources/from_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/sources/from_dict.py b/satella/configuration/sources/from_dict.py
index 8300a42..9310e18 100644
--- a/satella/configuration/sources/from_dict.py
+++ b/satella/configuration/sources/from_dict.py
@@ -63,7 +63,7 @@ def load_source_from_dict(dct: dict) -> BaseSource:
             else:
                 warnings.warn(
                     'Caught %s attempting to parse a dict with type, returning original value' % (
-                        e,), UserWarning)
+                        arg,), UserWarning)
                 return arg
         else:
             return arg
-- 
2.43.0


From 08211693ff14a9530a492f81f9c788d0d5557442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 134/154] fix: an empty descriptor of a schema keeps its key

---
 satella/configuration/schema/from_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e3b318a..e083634 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -61,7 +61,7 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
 
 def _get_descriptor_for(key: str, value: tp.Any) -> Descriptor:
     if value == '':
-        return Descriptor()
+        return create_key(Descriptor(), key, False, None)
     elif isinstance(value, str):
         return _get_descriptor_for_str(key, value)
     elif isinstance(value, dict):
-- 
2.43.0


From 3e9c5b520d88cdb19b62e740adcea774d78e7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 135/154] fix: an unknown type in a schema raises
 ConfigurationSchemaError

---
 satella/configuration/schema/from_json.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e083634..62a9c40 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -8,12 +8,10 @@ from .structs import create_key, Dict
 
 
 def _get_descriptor_for_str(key: str, value: str) -> Descriptor:
-    try:
-        if value in PLAIN_ENTRIES:
-            return create_key(BASE_LOOKUP_TABLE[value](),
-                              key, False, None)
-    except KeyError:
+    if value not in PLAIN_ENTRIES:
         raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
+    return create_key(BASE_LOOKUP_TABLE[value](),
+                      key, False, None)
 
 
 def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
@@ -55,6 +53,8 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
             optional = True
             default = value['default']
         optional = value.get('optional', optional)
+        if type_ not in BASE_LOOKUP_TABLE:
+            raise ConfigurationSchemaError('Unknown descriptor type %s' % (type_,))
         descriptor = BASE_LOOKUP_TABLE[type_](*args)
         return create_key(descriptor, key, optional, default)
 
-- 
2.43.0


From 69dc15d53f54bbc6ccb2bce4ca677876b0fe1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 136/154] fix: a value that does not match a Regexp raises
 ConfigurationValidationError

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index f451d80..858194a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -217,13 +217,13 @@ class Regexp(String):
 
         match = self.regexp.match(value)
         if not match:
-            raise ConfigurationValidationError('value does not match %s' % (self.REGEXP.pattern,),
+            raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,),
                                                value)
 
         return match.group(0)
 
     def __str__(self):
-        return 'Regexp(%s)' % (self.REGEXP.pattern,)
+        return 'Regexp(%s)' % (self.regexp.pattern,)
 
 
 @register_custom_descriptor('ipv4')
-- 
2.43.0


From dc99fa6edb0b519650266a67259dd790597e98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 137/154] fix: IPv4 accepts valid IPv4 addresses only

---
 satella/configuration/schema/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 858194a..dc63ce6 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -231,4 +231,4 @@ class IPv4(Regexp):
     """
     This must be a valid IPv4 address (no hostnames allowed)
     """
-    REGEXP = r'\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}'
+    REGEXP = r'(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(?:\.(?!\Z)|\Z)){4}\Z'
-- 
2.43.0


From 12ef5e7ae05c22ade1cac4e798677f5f1d4a1ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 138/154] fix: FileObject and DirectoryObject are equal to
 their path

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index dc63ce6..ba11f9d 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -72,7 +72,7 @@ class FileObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, FileObject)
+        return isinstance(other, (FileObject, str)) and self.path == str(other)
 
     def __hash__(self) -> int:
         return hash(self.path)
@@ -119,7 +119,7 @@ class DirectoryObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, DirectoryObject)
+        return isinstance(other, (DirectoryObject, str)) and self.path == str(other)
 
     def __hash__(self) -> int:
         return hash(self.path)
-- 
2.43.0


From e8b9b9a44483ef165fb67d917a9dda39a2bb2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 139/154] fix: transaction takes any callable for a connection
 getter

---
 satella/db.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..8601031 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -1,4 +1,3 @@
-import inspect
 import logging
 
 logger = logging.getLogger(__name__)
@@ -36,7 +35,7 @@ class transaction:
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
+        if not hasattr(self._connection, 'cursor'):
             conn = self._connection()
             self._connection = conn
             return conn
-- 
2.43.0


From a3da4c5bea8bd1a1866943965bf7ed2659c477b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 140/154] fix: transaction closes its cursor and connection
 when the commit fails

---
 satella/db.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index 8601031..51f6661 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -43,17 +43,19 @@ class transaction:
             return self._connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
-        if exc_val is not None and self.log_exception:
-            logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
-
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            if exc_val is None:
+                self.connection.commit()
+            else:
+                self.connection.rollback()
+
+            if exc_val is not None and self.log_exception:
+                logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
+        finally:
+            try:
+                self.cursor.close()
+            finally:
+                if self.close_the_connection_after:
+                    self.connection.close()
 
         return False
-- 
2.43.0


From 71fd1da06f7a496a1721b4770284344d5d62b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:48 +0000
Subject: [PATCH 141/154] fix: split() of an absolute path never finished

---
 satella/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index eca9748..0ec2a97 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -215,7 +215,10 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
-        data = list(os.path.split(data[0])) + data[1:]
+        head, tail = os.path.split(data[0])
+        if head == data[0]:  # this is the root directory
+            break
+        data = [head, tail] + data[1:]
     return data
 
 
-- 
2.43.0


From 7029bb3fecfcde5512129044a2391dcd07d49903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 142/154] fix: find_files() ignored
 apply_wildcard_to_entire_path in subdirectories

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index 0ec2a97..84cd053 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -370,6 +370,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
-- 
2.43.0


From 505559ac466a6b127db770dd8bd8751865aebdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 143/154] fix: AutoflushFile refused the documented modes a+
 and ab+

---
 satella/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 84cd053..37794a9 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -459,7 +459,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
-- 
2.43.0


From a55f9b83859ff31b11f1ee8cf780476d0654a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 144/154] fix: AutoflushFile forgot its position, so that
 nothing could be read from it

---
 satella/files.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/files.py b/satella/files.py
index 37794a9..a525b50 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -512,9 +512,12 @@ class AutoflushFile(Proxy[io.FileIO]):
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
-            ptr = file.tell()
+            ptr = self.__dict__['pointer']
+            if ptr is None:
+                self.__dict__['pointer'] = file.tell()
+            else:
+                file.seek(ptr)
             self.__dict__['_Proxy__obj'] = file
-            self.__dict__['pointer'] = ptr
         return file
 
     def _close_file(self) -> None:
-- 
2.43.0


From 4c2775260733fb46b7410195ca229a9f195db567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 145/154] fix: AutoflushFile.readall() called a method that
 files do not have

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index a525b50..4263b7c 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -506,7 +506,7 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        return fle.read()
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
-- 
2.43.0


From 22b9a08b1877d853af719b4c6e9f219f7d9f206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 146/154] fix: read_nowait() read nothing until the process
 ended, so that more output than a pipe holds blocked it forever

---
 satella/processes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index c60c225..e43a6c2 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -25,13 +25,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     This thread will terminate automatically after the process closes it's stdout or finishes.
     """
     while True:
-        with silence_excs(subprocess.TimeoutExpired):
-            process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
-- 
2.43.0


From ad4130cd78e6800593270fc208b966ec76ad3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 147/154] fix: AutoflushFile remembered a wrong position after
 a seek and a write

---
 satella/files.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/files.py b/satella/files.py
index 4263b7c..67d4af3 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -523,10 +523,12 @@ class AutoflushFile(Proxy[io.FileIO]):
     def _close_file(self) -> None:
         file = self._get_file()
         if file is not None:
-            ptr = file.tell()
-            self.__dict__['pointer'] = ptr
-            file.close()
-            self.__dict__['_Proxy__obj'] = None
+            try:
+                file.flush()  # what is appended goes to the end, wherever the position was
+                self.__dict__['pointer'] = file.tell()
+            finally:
+                self.__dict__['_Proxy__obj'] = None
+                file.close()
 
     @is_closed_getter
     @close_file_after
-- 
2.43.0


From c40c44fd30c8e3c22adfc646ebda343556ea49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 148/154] fix: a PIDFileLock that is held raised ResourceLocked
 without the documented attributes

---
 satella/os/pidlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 177895c..a00a902 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -67,7 +67,9 @@ class PIDFileLock:
                 return self.acquire()
 
             if pid in {x.pid for x in psutil.process_iter()}:
-                raise ResourceLocked(pid)
+                exc = ResourceLocked(pid)
+                exc.pid, exc.is_alive = pid, True
+                raise exc
             else:
                 # does not exist
                 os.unlink(self.path)
-- 
2.43.0


From 4c1803e923f5fbd6de15f0f7f28a76404d11c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 149/154] fix: str() of an exception with keyword arguments
 failed with TypeError

---
 satella/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 9ac1a0e..786ec17 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -29,7 +29,8 @@ class CustomException(Exception):
         a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
         try:
             if self.kwargs:
-                a += ', ' + ', '.join(map(lambda k, v: '%s=%s' % (k, repr(v)), self.kwargs.items()))
+                a += ', ' + ', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])),
+                                          self.kwargs.items()))
         except AttributeError:
             pass
         a += ')'
-- 
2.43.0


From 616cb2fc1c4742bc352ee89cef6dbb6822d1ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 150/154] fix: leaving a Context removed all of the layers
 around it, and its variables were ignored

---
 satella/coding/environment.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..bbaec6a 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -56,8 +56,7 @@ class Context:
             parent = local.thread_context
         except AttributeError:
             parent = None
-        ctxt = Context(parent=parent)
-        ctxt.parent = parent
+        ctxt = Context(parent=parent, **self.variables)
         local.thread_context = ctxt
         return ctxt
 
@@ -87,13 +86,14 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
-            try:
+        try:
+            parent = local.thread_context.parent  # that's the layer added by __enter__
+            if parent is None:
                 del local.thread_context
-            except AttributeError:
-                pass
-        else:
-            local.thread_context = self.parent
+            else:
+                local.thread_context = parent
+        except AttributeError:
+            pass
         return False
 
     @staticmethod
-- 
2.43.0


From 495ef632f4d91582094234b19bd1747a0c78440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 151/154] fix: CopyDocsFrom copied the documentation of a
 single method

---
 satella/coding/metaclasses.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 9e35cf5..585909b 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -46,7 +46,6 @@ def CopyDocsFrom(target_cls: tp.Type):
                     if getattr(target_cls, key).__doc__:
                         value.__doc__ = getattr(target_cls, key).__doc__
                         dictionary[key] = value
-                        break
 
         return type(name, bases, dictionary)
 
-- 
2.43.0


From 07bf6489c53aba65304f9bf2cb0109dda9ed917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 152/154] fix: what a typednamedtuple makes was not an instance
 of it

---
 satella/coding/structures/typednamedtuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 1211f37..392a0cd 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -57,6 +57,6 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
             if len(kwargs) > 0:
                 raise TypeError('Too many parameters')
 
-            return MyCls.__new__(MyCls, *nargs)
+            return MyCls.__new__(cls, *nargs)
 
     return Wrapper
-- 
2.43.0


From 721517ff659b86e2aec5d95897fd5ee8dfadf68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 153/154] fix: a typednamedtuple ignored positional arguments
 that it has no fields for

---
 satella/coding/structures/typednamedtuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 392a0cd..b3fbe07 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -45,6 +45,8 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
         __name__ = MyCls.__name__
 
         def __new__(cls, *args, **kwargs):
+            if len(args) > len(fieldnames):
+                raise TypeError('Too many parameters')
 
             nargs = list(map(_adjust, zip(args, typeops[:len(args)])))
 
-- 
2.43.0


From 384fcc4940e476117057f4c8d3ef9cfff5dc6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 154/154] fix: Subqueue failed with RuntimeError if another
 thread added a queue meanwhile

---
 satella/coding/structures/queues.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..8d50094 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,7 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        return sum(que.qsize() for que in list(self.subqueues.values()))
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +51,7 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        for queue_name, q in list(self.subqueues.items()):
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0

