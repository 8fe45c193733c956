From b2c6ccecb6afb0d2c20a620dd7d194e20647aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 01/50] fix: latest-only: deliver a later re-emission made by
 the same callback

_max_recursion_depth was only ever raised, so after emit(2) had itself
re-entered to depth 3, an emit(4) from the same callback started at depth 2
and was dropped before its first slot.
---
 src/psygnal/_signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 86573de..474365e 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1272,9 +1272,9 @@ class SignalInstance:
             try:
                 # allow receiver to query sender with Signal.current_emitter()
                 self._recursion_depth += 1
-                self._max_recursion_depth = max(
-                    self._max_recursion_depth, self._recursion_depth
-                )
+                # deepest level reached *since this level was entered*: rounds that
+                # were started earlier (at a shallower level) compare against it.
+                self._max_recursion_depth = self._recursion_depth
                 with Signal._emitting(self):
                     self._run_emit_loop_inner()
             except RecursionError as e:
-- 
2.43.0


From e03a1057209fa682ebffb8d72cabaa282537121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 02/50] fix: group block/unblock restores the state each signal
 had before

Nested blocks recorded the already-blocked state (leaving every signal blocked
for good), and an excluded signal that was blocked beforehand got unblocked.
---
 src/psygnal/_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index a2f6ba8..04726b3 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -159,9 +159,10 @@ class SignalRelay(SignalInstance):
         """Block this signal and all emitters from emitting."""
         super().block()
         for name, sig in self._signals.items():
+            # nested blocks must not overwrite the state to restore in `unblock()`
+            self._sig_was_blocked.setdefault(name, sig._is_blocked)
             if name in exclude or sig in exclude:
                 continue
-            self._sig_was_blocked[name] = sig._is_blocked
             sig.block()
 
     def unblock(self) -> None:
-- 
2.43.0


From 6a78c947e589a3c973009d5ced814906824c6616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 03/50] fix: pausing a SignalGroup pauses what its relay
 forwards

The relay forwarded emissions straight to its emit loop, so group.pause() and
group.paused() (and EventedModel.update, which relies on it) had no effect.
---
 src/psygnal/_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 04726b3..2bb8a84 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -97,6 +97,9 @@ class SignalRelay(SignalInstance):
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
             info = EmissionInfo(emitter, args)
+            if self._is_paused:
+                self._args_queue.append((info,))
+                return
             self._run_emit_loop((info,))
 
     def connect_direct(
-- 
2.43.0


From a4cc0968f79b511997c33787ca6a1b1a4f22aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 04/50] fix: SignalGroup.disconnect(missing_ok=False) accepts a
 connected slot

It raised ValueError for a slot connected to the group, because that slot was
not also connected to each one of its signals.
---
 src/psygnal/_group.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 2bb8a84..08cd339 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -205,9 +205,13 @@ class SignalRelay(SignalInstance):
         ValueError
             If `slot` is not connected and `missing_ok` is False.
         """
+        if slot is not None and not missing_ok:
+            # the slot may be connected to this relay, and/or to (some of) the signals
+            if slot not in self and not any(slot in s for s in self._signals.values()):
+                raise ValueError(f"slot is not connected: {slot}")
         for sig in self._signals.values():
-            sig.disconnect(slot, missing_ok)
-        super().disconnect(slot, missing_ok)
+            sig.disconnect(slot)
+        super().disconnect(slot)
 
 
 # NOTE
-- 
2.43.0


From 811580ea80b51efee5067617256b9dd2055ab6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 05/50] fix: set-like containers match set for repeated items,
 iterators and self

symmetric_difference[_update] toggled a repeated item twice and exhausted an
iterator argument; *_update(self) raised RuntimeError; intersection() without
arguments raised TypeError.
---
 src/psygnal/containers/_evented_set.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 2c841c8..d8113c2 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -126,7 +126,8 @@ class _BaseMutableSet(MutableSet[_T]):
 
     def difference_update(self, *s: Iterable[_T]) -> None:
         """Remove all elements of another set from this set."""
-        for i in chain(*s):
+        # (a tuple: `s` may contain self, which can't change while iterating it)
+        for i in tuple(chain(*s)):
             self.discard(i)
 
     def intersection(self, *s: Iterable[_T]) -> Self:
@@ -134,12 +135,12 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in both sets.)
         """
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         return self.__class__(i for i in self if i in other)
 
     def intersection_update(self, *s: Iterable[_T]) -> None:
         """Update this set with the intersection of itself and another."""
-        other = set.intersection(*(set(x) for x in s))
+        other = set(self).intersection(*s)
         for i in tuple(self):
             if i not in other:
                 self.discard(i)
@@ -157,7 +158,10 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in exactly one of the sets.)
         """
-        a = chain((i for i in __s if i not in self), (i for i in self if i not in __s))
+        other = dict.fromkeys(__s)  # once each, in order; `__s` may be an iterator
+        a = chain(
+            (i for i in other if i not in self), (i for i in self if i not in other)
+        )
         return self.__class__(a)
 
     def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
@@ -166,7 +170,7 @@ class _BaseMutableSet(MutableSet[_T]):
         This will remove any items in this set that are also in `other`, and
         add any items in others that are not present in this set.
         """
-        for i in __s:
+        for i in dict.fromkeys(__s):  # once each, even if it is repeated in `__s`
             self.discard(i) if i in self else self.add(i)
 
     def union(self, *s: Iterable[_T]) -> Self:
-- 
2.43.0


From f5aae4d4729ccf151c7c46cdf6a64bd4baa0e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 06/50] fix: deleting an out-of-range index of an EventedList
 is an IndexError

A negative index below -len wrapped around once more and removed the wrong
item, and other bad indices emitted `removing` before failing.
---
 src/psygnal/containers/_evented_list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e72a647..e90e1ba 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -189,6 +189,7 @@ class EventedList(MutableSequence[_T]):
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
         if isinstance(key, int):
+            self._data[key]  # raise IndexError *before* anything has been emitted
             yield (self, key if key >= 0 else key + len(self))
         elif isinstance(key, slice):
             yield from ((self, i) for i in range(*key.indices(len(self))))
-- 
2.43.0


From f8e66f52e5d2a6d35c5b4abcccfcf7af30372bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 07/50] fix: indexing an EventedList returns the element, also
 when it is a list

An element that is itself a list came back as a new EventedList copy of it.
---
 src/psygnal/containers/_evented_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e90e1ba..408a895 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -151,7 +151,7 @@ class EventedList(MutableSequence[_T]):
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
         result = self._data[key]
-        return self.__newlike__(result) if isinstance(result, list) else result
+        return self.__newlike__(result) if isinstance(key, slice) else result
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
-- 
2.43.0


From 0ebcc7b6272f9781ed42acee143d19d9806c8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 08/50] fix: EventedList.move/move_multiple with negative or
 out-of-range sources

A negative source index put the item in the wrong place, and an out-of-range
one emitted `moving` before raising IndexError.
---
 src/psygnal/containers/_evented_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 408a895..511d00a 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -275,6 +275,9 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
+        self._data[src_index]  # raise IndexError *before* anything has been emitted
+        if src_index < 0:
+            src_index += len(self)
         if dest_index < 0:
             dest_index += len(self) + 1
         if dest_index in (src_index, src_index + 1):
@@ -366,7 +369,8 @@ class EventedList(MutableSequence[_T]):
             if isinstance(idx, slice):
                 to_move.extend(list(range(*idx.indices(len(self)))))
             elif isinstance(idx, int):
-                to_move.append(idx)
+                self._data[idx]  # raise any IndexError up front
+                to_move.append(idx if idx >= 0 else idx + len(self))
             else:
                 raise TypeError(
                     "Can only move integer or slice indices"
-- 
2.43.0


From bc7d9b47db6d71e3a5a91122de05f55fad629874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 09/50] fix: move_multiple puts all sources, in the order
 given, before dest_index

With sources in an order such as (0, 2, 1), or with the destination among the
sources, the move plan lost track of where earlier moves had put things.
---
 src/psygnal/containers/_evented_list.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 511d00a..8304d65 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -381,23 +381,17 @@ class EventedList(MutableSequence[_T]):
         if dest_index < 0:
             dest_index += len(self) + 1
 
-        d_inc = 0
-        popped: list[int] = []
-        for i, src in enumerate(to_move):
-            if src != dest_index:
-                # we need to decrement the src_i by 1 for each time we have
-                # previously pulled items out from in front of the src_i
-                src -= sum(x <= src for x in popped)
-                # if source is past the insertion point, increment src for each
-                # previous insertion
-                if src >= dest_index:
-                    src += i
-                yield src, dest_index + d_inc
-
-            popped.append(src)
+        order = list(range(len(self)))  # where each item is after the moves so far
+        for item in to_move:
+            src = order.index(item)
+            if dest_index not in (src, src + 1):
+                yield src, dest_index
+            order.pop(src)
             # if the item moved up, increment the destination index
             if dest_index <= src:
-                d_inc += 1
+                dest_index += 1
+            # either way the item ends up right before the (current) destination
+            order.insert(dest_index - 1, item)
 
     def _connect_child_emitters(self, child: _T) -> None:
         """Connect all events from the child to be reemitted."""
-- 
2.43.0


From 1fa0dfae266b0f588b32d991b42ba205d6ab5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 10/50] fix: EventedObjectProxy can set an item under a new key

Looking up the previous value raised KeyError before the item was set.
---
 src/psygnal/containers/_evented_proxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index fcd5f57..b128fa5 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -90,7 +90,10 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self[key]
+        try:
+            before = self[key]
+        except LookupError:  # a new key
+            before = _UNSET
         super().__setitem__(key, value)
         if before is not (after := self[key]):
             self.events.item_set(key, after)
-- 
2.43.0


From d999a3d2480c55d2df2b84388065b7d6c4a3a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 11/50] fix: pickle the complete state of SignalInstance and
 StrongFunction

`description` of an unpickled signal, and connecting with a priority next to
an unpickled slot, raised AttributeError.
---
 src/psygnal/_signal.py        |  1 +
 src/psygnal/_weak_callback.py | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 474365e..838f397 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1467,6 +1467,7 @@ class SignalInstance:
         attrs = (
             "_signature",
             "_name",
+            "_description",
             "_is_blocked",
             "_is_paused",
             "_args_queue",
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index aa23330..1ac7e00 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -363,7 +363,19 @@ class StrongFunction(WeakCallback):
         return self._f
 
     def __getstate__(self) -> dict[str, Any]:
-        atr = ("_key", "_max_args", "_alive", "_on_ref_error", "_f", "_args", "_kwargs")
+        atr = (
+            "_key",
+            "_obj_module",
+            "_obj_qualname",
+            "_object_repr",
+            "_max_args",
+            "_alive",
+            "_on_ref_error",
+            "priority",
+            "_f",
+            "_args",
+            "_kwargs",
+        )
         return {k: getattr(self, k) for k in atr}
 
     def __setstate__(self, state: dict) -> None:
-- 
2.43.0


From 29aa05232ea5e589498f08dd0e37c63f51482ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 12/50] fix: resume() never re-delivers queued args after a
 callback raised

The queue was cleared only after all of it had been emitted, so the next
resume() emitted the already delivered args again.
---
 src/psygnal/_signal.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 838f397..48dbb45 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1409,24 +1409,25 @@ class SignalInstance:
         # EventedModel.update, it may be undefined (as seen in tests)
         if not getattr(self, "_args_queue", None):
             return
+        # take the queue first: whatever happens below (a slot may raise, or pause
+        # this signal again), args must not be delivered again by another resume()
+        queue, self._args_queue = self._args_queue, []
         if len(self._slots) == 0:
-            self._args_queue.clear()
             return
 
         if reducer is not None:
             if len(inspect.signature(reducer).parameters) == 1:
-                args = cast("ReducerOneArg", reducer)(self._args_queue)
+                args = cast("ReducerOneArg", reducer)(queue)
             else:
                 reducer = cast("ReducerTwoArgs", reducer)
                 if initial is _NULL:
-                    args = reduce(reducer, self._args_queue)
+                    args = reduce(reducer, queue)
                 else:
-                    args = reduce(reducer, self._args_queue, initial)
+                    args = reduce(reducer, queue, initial)
             self._run_emit_loop(args)
         else:
-            for args in self._args_queue:
+            for args in queue:
                 self._run_emit_loop(args)
-        self._args_queue.clear()
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 8be0f44914ca0de8c11650abf0143850492d463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 13/50] fix: two SignalGroupDescriptors on one class do not
 share their groups

The id -> group cache was shared by all descriptors, so the second one
returned the group created by whichever was accessed first.
---
 src/psygnal/_group_descriptor.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 557c543..e392ff4 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -10,7 +10,6 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
-    ClassVar,
     Literal,
     Optional,
     TypeVar,
@@ -508,10 +507,6 @@ class SignalGroupDescriptor:
     ```
     """
 
-    # map of id(obj) -> SignalGroup
-    # cached here in case the object isn't modifiable
-    _instance_map: ClassVar[dict[int, SignalGroup]] = {}
-
     def __init__(
         self,
         *,
@@ -551,6 +546,9 @@ class SignalGroupDescriptor:
         self._signal_aliases = signal_aliases
 
         self._signal_groups: dict[int, type[SignalGroup]] = {}
+        # map of id(obj) -> SignalGroup
+        # cached here in case the object isn't modifiable
+        self._instance_map: dict[int, SignalGroup] = {}
 
     def __set_name__(self, owner: type, name: str) -> None:
         """Called when this descriptor is added to class `owner` as attribute `name`."""
-- 
2.43.0


From 6a22120d761d3cf94bca5a8a8a4a8c894e4477a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 14/50] fix: EventedModel emits the validated value of a field

With validate_assignment the value passed to __setattr__ was emitted (and
compared with the old value), rather than the value the field now has.
---
 src/psygnal/_evented_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 31f90f9..84a89d7 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -631,8 +631,10 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         old_value = getattr(self, name, object())
         self._super_setattr_(name, value)
-        if not _check_field_equality(type(self), name, value, old_value):
-            getattr(self._events, name)(value)
+        # (the value may have been modified by validation)
+        new_value = getattr(self, name)
+        if not _check_field_equality(type(self), name, new_value, old_value):
+            getattr(self._events, name)(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From 5e4471e99e9b8774ec32a5f82a0fe03ca8f5d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 15/50] fix: EventedList(child_events=True) follows children on
 item assignment

Replacing an item neither disconnected the old child nor connected the new one.
---
 src/psygnal/containers/_evented_list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 8304d65..89cc973 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -175,6 +175,13 @@ class EventedList(MutableSequence[_T]):
             value = self._pre_insert(cast("_T", value))
             self._data[key] = value
 
+        if self._child_events:
+            is_slice = isinstance(key, slice)
+            for child in old if is_slice else [old]:
+                self._disconnect_child_emitters(child)
+            for child in cast("Iterable", value) if is_slice else [value]:
+                self._connect_child_emitters(child)
+
         self.events.changed.emit(key, old, value)
 
     def __delitem__(self, key: Index) -> None:
-- 
2.43.0


From f287d6e6ba5b85aabe1390be3df33da66e87e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 16/50] fix: connect honours on_ref_error when checking the
 number of arguments

_check_nargs reported every callback as a Qt signal, so that connect always
fell back to on_ref_error='ignore' with the default check_nargs=True.
---
 src/psygnal/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 48dbb45..0d0968e 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1085,7 +1085,7 @@ class SignalInstance:
             )
             self._raise_connection_error(slot, extra)
 
-        return None if isinstance(slot_sig, str) else slot_sig, maxargs, True
+        return (None, maxargs, True) if isinstance(slot_sig, str) else (slot_sig, maxargs, False)
 
     def _raise_connection_error(self, slot: Callable, extra: str = "") -> NoReturn:
         name = getattr(slot, "__name__", str(slot))
-- 
2.43.0


From 6147dd925d2fb25f4aa90ee34972af8dbfdbdb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 17/50] fix: a Signal declared under another attribute name
 than its own is cached

Signal(name='x') declared as attribute 'y' stored the SignalInstance as
instance.x, so that every access to instance.y made a new one.
---
 src/psygnal/_signal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 0d0968e..0a7d236 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -302,6 +302,7 @@ class Signal:
         reemission: ReemissionVal = DEFAULT_REEMISSION,
     ) -> None:
         self._name = name
+        self._attr_name: str | None = None  # attribute this signal is declared as
         self.description = description
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
@@ -329,6 +330,8 @@ class Signal:
         """Set name of signal when declared as a class attribute on `owner`."""
         if self._name is None:
             self._name = name
+        if self._attr_name is None:
+            self._attr_name = name
 
     @overload
     def __get__(self, instance: None, owner: type[Any] | None = None) -> Signal: ...
@@ -371,7 +374,8 @@ class Signal:
             # first, try to assign it to instance.name ... this essentially breaks the
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
-            setattr(instance, cast("str", self._name), signal_instance)
+            attr_name = self._attr_name or self._name
+            setattr(instance, cast("str", attr_name), signal_instance)
         except AttributeError:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
-- 
2.43.0


From 8bacce8a8007ab61eb6e78fa91002e9a17e7d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 18/50] fix: EventedList.move/move_multiple with a destination
 out of range

The destination is clamped as list.insert does, so that moved reports the
actual index and a far negative destination is the start of the list.
---
 src/psygnal/containers/_evented_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 89cc973..a444334 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -286,7 +286,8 @@ class EventedList(MutableSequence[_T]):
         if src_index < 0:
             src_index += len(self)
         if dest_index < 0:
-            dest_index += len(self) + 1
+            dest_index = max(dest_index + len(self) + 1, 0)
+        dest_index = min(dest_index, len(self))
         if dest_index in (src_index, src_index + 1):
             # this is a no-op
             return False
@@ -386,7 +387,8 @@ class EventedList(MutableSequence[_T]):
         to_move = list(dict.fromkeys(to_move))
 
         if dest_index < 0:
-            dest_index += len(self) + 1
+            dest_index = max(dest_index + len(self) + 1, 0)
+        dest_index = min(dest_index, len(self))
 
         order = list(range(len(self)))  # where each item is after the moves so far
         for item in to_move:
-- 
2.43.0


From db78d3907d1d2650fd74bf96cd207b7787a83ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 19/50] fix: a refused Selection.active leaves the active item
 as it was

Assigning an item that is not in the parent container to an empty selection
raised ValueError but left it as the active item.
---
 src/psygnal/containers/_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7650a16..ccfe6e6 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -108,6 +108,8 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             return
+        if value is not None:
+            self._pre_add_hook(value)  # raises if `value` cannot be selected
         self._active = value
         self.clear() if value is None else self.select_only(value)
         self._current = value
-- 
2.43.0


From 8ce3574ee00434d888c8a0ae5b6aed0aec8edf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 20/50] fix: EventedModel subclasses have signals for inherited
 property setters

---
 src/psygnal/_evented_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 84a89d7..705732e 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -279,8 +279,10 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
-                    recursion = emission_map.get(key, default_strategy)
-                    signals[key] = Signal(object, reemission=recursion)
+            # also the inherited ones need a signal in the group of this class
+            for key in cls.__property_setters__:
+                recursion = emission_map.get(key, default_strategy)
+                signals[key] = Signal(object, reemission=recursion)
         else:
             for b in cls.__bases__:
                 with suppress(AttributeError):
-- 
2.43.0


From de088b91f7c2256673b655042dec9ff9bb671db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 21/50] fix: EventedModel.reset restores the actual defaults
 (factories, nested values)

---
 src/psygnal/_evented_model.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 705732e..8675201 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -109,17 +109,11 @@ if not PYDANTIC_V1:
     def _get_defaults(
         obj: Union[pydantic.BaseModel, type[pydantic.BaseModel]],
     ) -> dict[str, Any]:
-        """Get possibly nested default values for a Model object."""
+        """Get the default values of the fields that have one, for a Model object."""
         dflt = {}
         for k, v in obj.model_fields.items():
-            d = v.get_default()
-            if (
-                d is None
-                and isinstance(v.annotation, type)
-                and issubclass(v.annotation, pydantic.BaseModel)
-            ):
-                d = _get_defaults(v.annotation)  # pragma: no cover
-            dflt[k] = d
+            if not v.is_required():
+                dflt[k] = v.get_default(call_default_factory=True)
         return dflt
 
     def _get_config(cls: pydantic.BaseModel) -> "ConfigDict":
@@ -548,11 +542,16 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
 
     def reset(self) -> None:
         """Reset the state of the model to default values."""
+        self._reset_to(self._defaults)
+
+    def _reset_to(self, values: dict[str, Any]) -> None:
+        """Set all fields in `values`, in place for fields that are EventedModels."""
         model_config = _get_config(self)
         model_fields = _get_fields(self)
-        for name, value in self._defaults.items():
-            if isinstance(value, EventedModel):
-                cast("EventedModel", getattr(self, name)).reset()
+        for name, value in values.items():
+            field = getattr(self, name, None)
+            if isinstance(value, EventedModel) and type(field) is type(value):
+                field._reset_to({n: getattr(value, n) for n in _get_fields(value)})
             elif not model_config.get("frozen") and not model_fields[name].frozen:
                 setattr(self, name, value)
 
-- 
2.43.0


From 5ab668e98280a0886192213fadd1fc7542f31d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 22/50] fix: EventedModel.update accepts None for an optional
 nested model

---
 src/psygnal/_evented_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 8675201..b7c6afe 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -535,7 +535,9 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with self.events._psygnal_relay.paused():  # TODO: reduce?
             for key, value in values.items():
                 field = getattr(self, key)
-                if isinstance(field, EventedModel) and recurse:
+                # a value of another kind (e.g. None) replaces the field
+                update = recurse and isinstance(value, (pydantic.BaseModel, dict))
+                if isinstance(field, EventedModel) and update:
                     field.update(value, recurse=recurse)
                 else:
                     setattr(self, key, value)
-- 
2.43.0


From 36ffc5f1ce579646a09e70df1c3320cc421d7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 23/50] fix: a refused assignment to an evented field emits
 nothing

---
 src/psygnal/_group_descriptor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index e392ff4..221f60f 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -311,8 +311,10 @@ class _changes_emitted:
     def __enter__(self) -> None:
         self._prev = getattr(self.obj, self.field, _NULL)
 
-    def __exit__(self, *args: Any) -> None:
+    def __exit__(self, exc_type: type[BaseException] | None, *args: Any) -> None:
         new: Any = getattr(self.obj, self.field, _NULL)
+        if exc_type is not None and new is self._prev:
+            return  # refused assignment, whatever the equality operator says
         if not _check_field_equality(type(self.obj), self.field, self._prev, new):
             self.signal.emit(new, self._prev)
 
-- 
2.43.0


From 42196aab0fcea86fc336c23bda7c9cea8d29411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 24/50] fix: calls right after cancel() or creation of a
 throttled function are not lost

---
 src/psygnal/_throttler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 470b9b7..092b3bf 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -32,7 +32,6 @@ class _ThrottlerBase(Generic[P]):
         self._policy: EmissionPolicy = policy
         self._has_pending: bool = False
         self._timer: Timer = Timer(0, lambda: None)
-        self._timer.start()
         self._args: tuple[Any, ...] = ()
         self._kwargs: dict[str, Any] = {}
 
@@ -63,6 +62,8 @@ class _ThrottlerBase(Generic[P]):
         """Cancel any pending calls."""
         self._has_pending = False
         self._timer.cancel()
+        # the cancelled timer may stay alive for a moment: do not wait for it
+        self._timer = Timer(0, lambda: None)
 
     def flush(self) -> None:
         """Force a call if there is one pending."""
-- 
2.43.0


From 29b5bd752a8bcaeb12737f252f4a89cae410b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 25/50] fix: a throttled function that raises still waits for
 its interval

---
 src/psygnal/_throttler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 092b3bf..93b06f8 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -46,8 +46,10 @@ class _ThrottlerBase(Generic[P]):
 
     def _actually_call(self) -> None:
         self._has_pending = False
-        self.__wrapped__(*self._args, **self._kwargs)
-        self._start_timer()
+        try:
+            self.__wrapped__(*self._args, **self._kwargs)
+        finally:
+            self._start_timer()
 
     def _call_if_has_pending(self) -> None:
         if self._has_pending:
-- 
2.43.0


From d6278517066c57a3f05105cfe3994fa1d6a82693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 26/50] fix: copy.copy of a SignalGroup has its own signals

---
 src/psygnal/_group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 08cd339..463dfc4 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -432,6 +432,10 @@ class SignalGroup:
         )
         return cls._psygnal_uniform
 
+    def __copy__(self) -> SignalGroup:
+        # a group that shared its signals with this one would not be a copy
+        return type(self)(instance=self._psygnal_relay.instance)
+
     def __deepcopy__(self, memo: dict[int, Any]) -> SignalGroup:
         # TODO:
         # This really isn't a deep copy. Should we also copy connections?
-- 
2.43.0


From 0bc0e134ee753ee70ec3d581e977a6d5d313be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 27/50] fix: copies of an EventedModel have their own events

---
 src/psygnal/_evented_model.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index b7c6afe..048a0c1 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -696,6 +696,23 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
 
     else:
 
+        def __copy__(self) -> "EventedModel":
+            return super().__copy__()._own_events()
+
+        def __deepcopy__(self, memo: Union[dict[int, Any], None] = None) -> Any:
+            return super().__deepcopy__(memo)._own_events()
+
+        def copy(self, **kwargs: Any) -> Any:
+            return super().copy(**kwargs)._own_events()
+
+        def _own_events(self) -> "EventedModel":
+            """Give a copy of a model its own events and no pending changes."""
+            self._events = self.__signal_group__(self)  # type: ignore [misc]
+            self._changes_queue = {}
+            self._primary_changes = set()
+            self._delay_check_semaphore = 0
+            return self
+
         @classmethod
         @contextmanager
         def enums_as_values(  # type: ignore [misc] # Incompatible redefinition
-- 
2.43.0


From c77fa584d3618a776328d9445ff16e6e894a4b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 28/50] fix: monitor_events reports each emission once and
 leaves no connection behind when the scan fails

A signal that two attributes of the object refer to was connected and
reported twice, and connections already made were left behind when reading
a later attribute raised.
---
 src/psygnal/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e37a290..63ec723 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -61,7 +61,10 @@ def monitor_events(
                 stacklevel=2,
             )
         disconnectors = set()
-        for siginst in iter_signal_instances(obj, include_private_attrs):
+        # (collected first, each instance once, even if several attributes refer to it)
+        for siginst in dict.fromkeys(
+            iter_signal_instances(obj, include_private_attrs)
+        ):
             if _old_api:
 
                 def _report(*args: Any, signal: SignalInstance = siginst) -> None:
-- 
2.43.0


From 9160a758deb8bc6099adc1f83b01c90b6ba42432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 29/50] fix: monitor_events without an object also sees
 emit_fast and what a paused signal emits on resume

---
 src/psygnal/_group.py  |  4 ++++
 src/psygnal/_signal.py | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 463dfc4..6a43a2f 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -102,6 +102,10 @@ class SignalRelay(SignalInstance):
                 return
             self._run_emit_loop((info,))
 
+    def _emit_held(self, args: tuple[Any, ...]) -> None:
+        # what the relay passes on was reported when the member signal was emitted
+        self._run_emit_loop(args)
+
     def connect_direct(
         self,
         slot: Callable | None = None,
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 0a7d236..36d6674 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1233,6 +1233,11 @@ class SignalInstance:
             self._args_queue.append(args)
             return
 
+        if SignalInstance._debug_hook is not None:
+            from ._group import EmissionInfo
+
+            SignalInstance._debug_hook(EmissionInfo(self, args))
+
         if self._recursion_depth >= RECURSION_LIMIT:
             raise RecursionError(
                 f"Psygnal recursion limit ({RECURSION_LIMIT}) reached when emitting "
@@ -1428,10 +1433,19 @@ class SignalInstance:
                     args = reduce(reducer, queue)
                 else:
                     args = reduce(reducer, queue, initial)
-            self._run_emit_loop(args)
+            self._emit_held(args)
         else:
             for args in queue:
-                self._run_emit_loop(args)
+                self._emit_held(args)
+
+    def _emit_held(self, args: tuple[Any, ...]) -> None:
+        """Deliver `args` that were held back while this signal was paused."""
+        if SignalInstance._debug_hook is not None:
+            from ._group import EmissionInfo
+
+            SignalInstance._debug_hook(EmissionInfo(self, args))
+
+        self._run_emit_loop(args)
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 9a8a6daa5119299142387bae359d7a8e2be2f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 30/50] fix: aliases given to a SignalGroupDescriptor with a
 custom group class do not leak into other classes

---
 src/psygnal/_group_descriptor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 221f60f..05fe2e9 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -631,9 +631,12 @@ class SignalGroupDescriptor:
             # Do not collect fields from owner class
             Group = copy.deepcopy(self._signal_group_class)
 
-            # Add aliases
-            if isinstance(self._signal_aliases, dict):
-                Group._psygnal_aliases.update(self._signal_aliases)
+            # Add aliases (in a subclass: classes are not copied by deepcopy, and
+            # other descriptors may use the same class with other aliases)
+            if isinstance(self._signal_aliases, dict) and self._signal_aliases:
+                Group = type(
+                    Group.__name__, (Group,), {}, signal_aliases=self._signal_aliases
+                )
 
         else:
             # Collect fields and create SignalGroup subclass
-- 
2.43.0


From 149f074bb2acaba713b6951621436a949a1255d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:46 +0000
Subject: [PATCH 31/50] fix: aliases of an evented subclass are honored when
 the base class was patched without aliases

---
 src/psygnal/_group_descriptor.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 05fe2e9..ffb2eee 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -380,22 +380,20 @@ def evented_setattr(
         if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):
             return super_setattr
 
-        # pick a slightly faster signal lookup if we don't need aliases
-        get_signal: Callable[[SignalGroup, str], SignalInstance | None] = (
-            get_signal_from_field if with_aliases else SignalGroup.__getitem__
-        )
-
         def _setattr_and_emit_(self: object, name: str, value: Any) -> None:
             """New __setattr__ method that emits events when fields change."""
             if name == signal_group_name:
                 return super_setattr(self, name, value)
 
             group = cast(SignalGroup, getattr(self, signal_group_name))
-            if not with_aliases and name not in group:
-                return super_setattr(self, name, value)
+            signal: SignalInstance | None
+            # a subclass may have aliases, even if the class that was patched has none
+            if with_aliases or group._psygnal_aliases:
+                signal = get_signal_from_field(group, name)
+            else:  # slightly faster signal lookup if we don't need aliases
+                signal = group[name] if name in group else None
 
             # don't emit if the signal doesn't exist or has no listeners
-            signal: SignalInstance | None = get_signal(group, name)
             if signal is None or len(signal) < 1:
                 return super_setattr(self, name, value)
 
-- 
2.43.0


From e9ceda7001d6e635f796aab0f50b549ecc21f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 32/50] fix: a class with two evented namespaces emits field
 changes on both

---
 src/psygnal/_group_descriptor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index ffb2eee..6b5ecbe 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -376,8 +376,9 @@ def evented_setattr(
     """
 
     def _inner(super_setattr: SetAttr) -> SetAttr:
-        # don't patch twice
-        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):
+        # don't patch twice (for the same signal group)
+        patched: tuple[str, ...] = getattr(super_setattr, PATCHED_BY_PSYGNAL, ())
+        if signal_group_name in patched:
             return super_setattr
 
         def _setattr_and_emit_(self: object, name: str, value: Any) -> None:
@@ -400,7 +401,7 @@ def evented_setattr(
             with _changes_emitted(self, name, signal):
                 super_setattr(self, name, value)
 
-        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)
+        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, (*patched, signal_group_name))
         return _setattr_and_emit_
 
     return _inner(super_setattr) if super_setattr else _inner
@@ -561,7 +562,7 @@ class SignalGroupDescriptor:
         """Patch the owner class's __setattr__ method to emit events."""
         if not self._patch_setattr:
             return
-        if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):
+        if self._name in getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, ()):
             return
 
         name = self._name
-- 
2.43.0


From 50abc9456ed0eb66b5b728d05f1dfac1d414b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 33/50] fix: a subclass whose __setattr__ calls the patched one
 of its base emits each change once

---
 src/psygnal/_group_descriptor.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 6b5ecbe..a7e3d05 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -4,6 +4,7 @@ import contextlib
 import copy
 import operator
 import sys
+import threading
 import warnings
 import weakref
 from typing import (
@@ -320,6 +321,8 @@ class _changes_emitted:
 
 
 SetAttr = Callable[[Any, str, Any], None]
+# (thread id, signal id, field name) of the fields that are being set right now
+_SETTING: set[tuple[int, int, str]] = set()
 
 
 @overload
@@ -398,8 +401,18 @@ def evented_setattr(
             if signal is None or len(signal) < 1:
                 return super_setattr(self, name, value)
 
+            # a patched `__setattr__` that calls another patched one (of a base class)
+            # is a single change, and is emitted once: by the outermost
+            key = (threading.get_ident(), id(signal), name)
+            if key in _SETTING:
+                return super_setattr(self, name, value)
+
             with _changes_emitted(self, name, signal):
-                super_setattr(self, name, value)
+                _SETTING.add(key)
+                try:
+                    super_setattr(self, name, value)
+                finally:
+                    _SETTING.discard(key)
 
         setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, (*patched, signal_group_name))
         return _setattr_and_emit_
-- 
2.43.0


From a32aad763854ffaf131ce1c96630ac520b655fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 34/50] fix: deselecting items leaves a selection consistent
 also when the remaining item has left the parent

---
 src/psygnal/containers/_selection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index ccfe6e6..41c1253 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -142,7 +142,13 @@ class Selection(EventedOrderedSet[_T]):
         An active item is a single selected item.
         """
         if len(self) == 1:
-            self.active = next(iter(self))
+            # not using the `active` setter: the item is selected already, whether or
+            # not it is (still) in the parent
+            item = next(iter(self))
+            if item != self._active:
+                self._active = item
+                self._current = item
+                self.events.active.emit(item)
         elif self._active is not None:
             self._active = None
             self.events.active.emit(None)
-- 
2.43.0


From 64b2d5e0d3875dcae111b5addefcd128f810fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 35/50] fix: the selection of a SelectableEventedList can be
 set from an iterator

---
 src/psygnal/containers/_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 41c1253..5fae823 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -189,5 +189,6 @@ class Selectable(Container[_S]):
     @selection.setter
     def selection(self, new_selection: Iterable[_S]) -> None:  # pragma: no cover
         """Set selection, without deleting selection model object."""
+        new_selection = tuple(new_selection)  # it may be an iterator
         self._selection.intersection_update(new_selection)
         self._selection.update(new_selection)
-- 
2.43.0


From f64943a9ce18cdc48f3fa8e1d7f767e88d689584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 36/50] fix: a class is not given the signal group of a dead
 class that had the same id

---
 src/psygnal/_group_descriptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index a7e3d05..cce93dc 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -636,6 +636,8 @@ class SignalGroupDescriptor:
         type_id = id(owner)
         if type_id not in self._signal_groups:
             self._signal_groups[type_id] = self._create_group(owner)
+            # clean up when the class is deleted: its id may be used by another class
+            weakref.finalize(owner, self._signal_groups.pop, type_id, None)
         return self._signal_groups[type_id]
 
     def _create_group(self, owner: type) -> type[SignalGroup]:
-- 
2.43.0


From 949828d2a08b519873065551ecd93c7beb864476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 37/50] fix: an emission that waits for another thread's deep
 emission is not refused by the recursion limit

---
 src/psygnal/_signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 36d6674..7198cd4 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1271,10 +1271,11 @@ class SignalInstance:
         return self.emit(*args, check_nargs=check_nargs, check_types=check_types)
 
     def _run_emit_loop(self, args: tuple[Any, ...]) -> None:
-        if self._recursion_depth >= RECURSION_LIMIT:
-            raise RecursionError("Recursion limit reached!")
-
         with self._lock:
+            # (with the lock: the depth is not that of another thread's emission)
+            if self._recursion_depth >= RECURSION_LIMIT:
+                raise RecursionError("Recursion limit reached!")
+
             self._emit_queue.append(args)
             if len(self._emit_queue) > 1:
                 return
-- 
2.43.0


From 844780b31a2f65e3edd047e9018285c3f7afdcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 38/50] fix: a copy or pickle of a signal made during an
 emission is not left in that emission

---
 src/psygnal/_signal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 7198cd4..9dbac5c 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1500,6 +1500,10 @@ class SignalInstance:
             "_recursion_depth",
         )
         dd = {slot: getattr(self, slot) for slot in attrs}
+        dd["_args_queue"] = list(self._args_queue)
+        # an emission in progress is one of this instance, not of a copy
+        dd["_emit_queue"] = deque()
+        dd["_max_recursion_depth"] = dd["_recursion_depth"] = 0
         dd["_instance"] = self._instance()
         dd["_slots"] = [x for x in self._slots if isinstance(x, StrongFunction)]
         if len(self._slots) > len(dd["_slots"]):
-- 
2.43.0


From 1184c02aeb156a27394aa68b4f845feea018444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 39/50] fix: select_next of a SelectableEventedList whose
 current item was removed starts from the end

---
 src/psygnal/containers/_selectable_evented_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index bebe8da..458be50 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -83,7 +83,8 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         """
         if len(self) == 0:
             return
-        elif not self.selection:
+        elif not self.selection or self.selection._current not in self:
+            # nothing to start from (the current item may have left the list)
             idx = -1 if step > 0 else 0
         else:
             idx = self.index(self.selection._current) + step
-- 
2.43.0


From df5ddb7a64c97432019e226048733b7e602bcbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 40/50] fix: an error in a callback is an EmitLoopError also
 when its message cannot be built

---
 src/psygnal/_exceptions.py | 47 +++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/psygnal/_exceptions.py b/src/psygnal/_exceptions.py
index f87d88e..a103b2d 100644
--- a/src/psygnal/_exceptions.py
+++ b/src/psygnal/_exceptions.py
@@ -36,27 +36,32 @@ class EmitLoopError(Exception):
 
         self.__cause__ = exc
 
-        # grab the signal name or repr
-        if signal is None:  # pragma: no cover
-            sig_name: str = ""
-        elif instance := signal.instance:
-            inst_class = instance.__class__
-            mod = getattr(inst_class, "__module__", "")
-            if mod:
-                mod += "."
-            sig_name = f"{mod}{inst_class.__qualname__}.{signal.name}"
-        else:
-            sig_name = signal.name
-
-        msg = _build_psygnal_exception_msg(sig_name, exc, recursion_depth)
-
-        # queued emission can be confusing, because the `signal.emit()` call shown
-        # in the traceback will not match the emission that actually raised the error.
-        if reemission == "queued" and (depth := len(emit_queue) - 1):
-            msg += (
-                "\nNOTE: reemission is set to 'queued', and this error occurred "
-                f"at a queue-depth of {depth}.\nEmitting arguments: {emit_queue[-1]})\n"
-            )
+        try:
+            # grab the signal name or repr
+            if signal is None:  # pragma: no cover
+                sig_name: str = ""
+            elif (instance := signal.instance) is not None:
+                inst_class = instance.__class__
+                mod = getattr(inst_class, "__module__", "")
+                if mod:
+                    mod += "."
+                sig_name = f"{mod}{inst_class.__qualname__}.{signal.name}"
+            else:
+                sig_name = signal.name
+
+            msg = _build_psygnal_exception_msg(sig_name, exc, recursion_depth)
+
+            # queued emission can be confusing, because the `signal.emit()` call
+            # shown in the traceback will not match the emission that actually raised
+            # the error.
+            if reemission == "queued" and (depth := len(emit_queue) - 1):
+                msg += (
+                    "\nNOTE: reemission is set to 'queued', and this error occurred "
+                    f"at a queue-depth of {depth}.\n"
+                    f"Emitting arguments: {emit_queue[-1]})\n"
+                )
+        except Exception:  # something shown in the message has no `str` or `repr`
+            msg = f"an error occurred in a callback: {type(exc).__name__}"
 
         super().__init__(msg)
 
-- 
2.43.0


From fcf480aa15fe794857646c4154d02258b3d8ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 41/50] fix: a field named like an attribute of SignalGroup
 emits its own signal

---
 src/psygnal/_evented_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 048a0c1..89578bd 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -592,7 +592,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
             for name, new_value in to_emit:
-                getattr(self._events, name)(new_value)
+                self._events[name](new_value)
 
     def __setattr__(self, name: str, value: Any) -> None:
         if (
@@ -637,7 +637,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # (the value may have been modified by validation)
         new_value = getattr(self, name)
         if not _check_field_equality(type(self), name, new_value, old_value):
-            getattr(self._events, name)(new_value)
+            self._events[name](new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From 12fed36ba0d7d97b18ba87530a3712ad6c762507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 42/50] fix: a reserved name that is a Signal of a base class
 outside SignalGroup does not replace the group's attribute

---
 src/psygnal/_group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 6a43a2f..1c7e271 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -10,6 +10,7 @@ the args that were emitted.
 
 from __future__ import annotations
 
+import inspect
 import warnings
 from types import MappingProxyType
 from typing import (
@@ -331,8 +332,11 @@ class SignalGroup:
         }
         if conflicts:
             for name in conflicts:
-                if isinstance(getattr(cls, name), Signal):
+                if isinstance(cls.__dict__.get(name), Signal):
                     delattr(cls, name)
+                if name in reserved and isinstance(getattr(cls, name), Signal):
+                    # inherited from a class that is not a SignalGroup
+                    setattr(cls, name, inspect.getattr_static(SignalGroup, name))
             Names = "Names" if len(conflicts) > 1 else "Name"
             Are = "are" if len(conflicts) > 1 else "is"
             warnings.warn(
-- 
2.43.0


From f16515061ae25cfdb7cc14ac70700100609b6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 43/50] fix: the equality operators a class has are not
 replaced by guesses

---
 src/psygnal/_group_descriptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index cce93dc..95bdefc 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -200,7 +200,7 @@ def _build_dataclass_signal_group(
             if not callable(_equality_operators[name]):  # pragma: no cover
                 raise TypeError("EqOperator must be callable")
             eq_map[name] = _equality_operators[name]
-        else:
+        elif name not in eq_map:
             eq_map[name] = _pick_equality_operator(type_)
 
         # Resolve the signal name for the field
-- 
2.43.0


From a687f3b87d60f0608a2c52f049c9dbac0d7d091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 44/50] fix: equality_operators given to SignalGroupDescriptor
 hold with collect_fields=False

---
 src/psygnal/_group_descriptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 95bdefc..2d08e7d 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -644,6 +644,8 @@ class SignalGroupDescriptor:
         if not self._collect_fields:
             # Do not collect fields from owner class
             Group = copy.deepcopy(self._signal_group_class)
+            if self._eqop:
+                _get_eq_operator_map(owner).update(self._eqop)
 
             # Add aliases (in a subclass: classes are not copied by deepcopy, and
             # other descriptors may use the same class with other aliases)
-- 
2.43.0


From 6ed779b771543730b4a8e09d155f4e906f806358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 45/50] fix: signal_aliases given as a Mapping hold with
 collect_fields=False

---
 src/psygnal/_group_descriptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 2d08e7d..f7622e6 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -649,7 +649,7 @@ class SignalGroupDescriptor:
 
             # Add aliases (in a subclass: classes are not copied by deepcopy, and
             # other descriptors may use the same class with other aliases)
-            if isinstance(self._signal_aliases, dict) and self._signal_aliases:
+            if self._signal_aliases and not callable(self._signal_aliases):
                 Group = type(
                     Group.__name__, (Group,), {}, signal_aliases=self._signal_aliases
                 )
-- 
2.43.0


From 06597c667d1ff0204ce2651e2e0c242813770161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:30 +0000
Subject: [PATCH 46/50] fix: operators of a subclass do not replace those in an
 inherited __eq_operators__

---
 src/psygnal/_group_descriptor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index f7622e6..4067ad6 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -49,12 +49,14 @@ _NULL = object()
 
 def _get_eq_operator_map(cls: type) -> dict[str, EqOperator]:
     """Return the map of field_name -> equality operator for the class."""
-    # if the class has an __eq_operators__ attribute, we use it
+    # if the class has an __eq_operators__ attribute of its own, we use it
     # otherwise use/create the entry for `cls` in the global _EQ_OPERATORS map
-    if hasattr(cls, _EQ_OPERATOR_NAME):
+    # (starting with inherited operators: the map of a base class is not modified)
+    if _EQ_OPERATOR_NAME in vars(cls):
         return cast(dict, getattr(cls, _EQ_OPERATOR_NAME))
-    else:
-        return _EQ_OPERATORS.setdefault(cls, {})
+    if cls not in _EQ_OPERATORS:
+        _EQ_OPERATORS[cls] = dict(getattr(cls, _EQ_OPERATOR_NAME, {}))
+    return _EQ_OPERATORS[cls]
 
 
 def _check_field_equality(
-- 
2.43.0


From 0835270aa4af2755d02d164597ac2f0c777212a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 47/50] fix: ordered sets used as pydantic fields keep the
 order of their items

---
 src/psygnal/containers/_evented_set.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index d8113c2..27bc37a 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -220,6 +220,22 @@ class OrderedSet(_BaseMutableSet[_T]):
         inner = ", ".join(str(x) for x in self._data)
         return f"{self.__class__.__name__}(({inner}))"
 
+    @classmethod
+    def __get_pydantic_core_schema__(
+        cls, source_type: Any, handler: Callable
+    ) -> Mapping[str, Any]:
+        """Return the Pydantic core schema for this object."""
+        from pydantic_core import core_schema
+
+        args = get_args(source_type)
+        # (validated as a list: its items stay in order, unlike those of a set)
+        return core_schema.no_info_after_validator_function(
+            function=cls,
+            schema=core_schema.list_schema(
+                items_schema=handler(args[0]) if args else None,
+            ),
+        )
+
 
 class SetEvents(SignalGroup):
     """Events available on [EventedSet][psygnal.containers.EventedSet].
-- 
2.43.0


From 6bb4067ed389417e7912c4f33814c1d337b8423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 48/50] fix: monitor_events takes a logger for old-style only
 if it cannot be called with one argument

---
 src/psygnal/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index 63ec723..caa771d 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 from contextlib import contextmanager, suppress
 from functools import partial
+from inspect import signature
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Callable
 from warnings import warn
@@ -21,6 +22,19 @@ def _default_event_monitor(info: EmissionInfo) -> None:
     print(f"{info.signal.name}.emit{info.args!r}")
 
 
+def _is_old_style_logger(logger: Callable) -> bool:
+    """Return True if `logger` takes two arguments: signal name and emitted args."""
+    try:
+        sig = signature(logger)
+    except (TypeError, ValueError):  # no signature available
+        return False
+    try:
+        sig.bind(None)
+    except TypeError:
+        return True
+    return False
+
+
 @contextmanager
 def monitor_events(
     obj: Any | None = None,
@@ -43,8 +57,7 @@ def monitor_events(
         Whether private signals (starting with an underscore) should also be logged,
         by default False
     """
-    code = getattr(logger, "__code__", None)
-    _old_api = bool(code and code.co_argcount > 1)
+    _old_api = _is_old_style_logger(logger)
 
     if obj is None:
         # install the hook globally
-- 
2.43.0


From 9948c0d19a12809278fe54c962c0c48bdbb50182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 49/50] fix: connected partials of setattr and __setitem__ keep
 the value and keyword arguments bound to them

---
 src/psygnal/_weak_callback.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 1ac7e00..1c0279f 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -134,7 +134,7 @@ def weak_callback(
         )
 
     if isinstance(cb, MethodType):
-        if getattr(cb, "__name__", None) == "__setitem__":
+        if getattr(cb, "__name__", None) == "__setitem__" and not kwargs:
             try:
                 key = args[0]
             except IndexError as e:  # pragma: no cover
@@ -143,7 +143,7 @@ def weak_callback(
                 ) from e
             obj = cast("SupportsSetitem", cb.__self__)
             return WeakSetitem(
-                obj, key, max_args, finalize, on_ref_error, priority=priority
+                obj, key, max_args, finalize, on_ref_error, priority, args[1:]
             )
         return WeakMethod(
             cb, max_args, args, kwargs, finalize, on_ref_error, priority=priority
@@ -163,7 +163,7 @@ def weak_callback(
                     "setattr requires two arguments, an object and an attribute name."
                 ) from e
             return WeakSetattr(
-                obj, attr, max_args, finalize, on_ref_error, priority=priority
+                obj, attr, max_args, finalize, on_ref_error, priority, args[2:]
             )
         return WeakBuiltin(
             cb, max_args, args, finalize, on_ref_error, priority=priority
@@ -531,11 +531,13 @@ class WeakSetattr(WeakCallback):
         finalize: Callable | None = None,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
+        args: tuple[Any, ...] = (),
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
         self._key += f".__setattr__({attr!r})"
         self._obj_ref = self._try_ref(obj, finalize)
         self._attr = attr
+        self._args = args  # the value, if not the one emitted
         self._object_repr += f".__setattr__({attr!r}, ...)"
 
     def slot_repr(self) -> str:
@@ -548,11 +550,12 @@ class WeakSetattr(WeakCallback):
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is not None:
             args = args[: self._max_args]
+        args = (*self._args, *args)
         setattr(obj, self._attr, args[0] if len(args) == 1 else args)
 
     def dereference(self) -> partial | None:
         obj = self._obj_ref()
-        return None if obj is None else partial(setattr, obj, self._attr)
+        return None if obj is None else partial(setattr, obj, self._attr, *self._args)
 
 
 class SupportsSetitem(Protocol):
@@ -570,11 +573,13 @@ class WeakSetitem(WeakCallback):
         finalize: Callable | None = None,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
+        args: tuple[Any, ...] = (),
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
         self._key += f".__setitem__({key!r})"
         self._obj_ref = self._try_ref(obj, finalize)
         self._itemkey = key
+        self._args = args  # the value, if not the one emitted
         self._object_repr += f".__setitem__({key!r}, ...)"
 
     def slot_repr(self) -> str:
@@ -587,8 +592,11 @@ class WeakSetitem(WeakCallback):
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is not None:
             args = args[: self._max_args]
+        args = (*self._args, *args)
         obj[self._itemkey] = args[0] if len(args) == 1 else args
 
     def dereference(self) -> partial | None:
         obj = self._obj_ref()
-        return None if obj is None else partial(obj.__setitem__, self._itemkey)
+        if obj is None:
+            return None
+        return partial(obj.__setitem__, self._itemkey, *self._args)
-- 
2.43.0


From ff03445e90ea440a33bdf581bc2f8b660b5f8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 50/50] fix: resume() accepts reducers that have no signature,
 without losing what was held

---
 src/psygnal/_signal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 9dbac5c..8e1061e 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1426,7 +1426,11 @@ class SignalInstance:
             return
 
         if reducer is not None:
-            if len(inspect.signature(reducer).parameters) == 1:
+            try:
+                one_arg = len(inspect.signature(reducer).parameters) == 1
+            except ValueError:  # some builtins (e.g. max) have no signature
+                one_arg = False
+            if one_arg:
                 args = cast("ReducerOneArg", reducer)(queue)
             else:
                 reducer = cast("ReducerTwoArgs", reducer)
-- 
2.43.0

