From 97accf4b53bc0f691075f1dd1bb97d60e44a03a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 01/38] fix: save the project's channel count instead of
 counting the rack's channels

len(project.channels) raises NoModelsFound for files without channels
(scores, insert and plugin presets) and ignores Project.channel_count.
---
 pyflp/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..562344d 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,8 +184,7 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
+    header = FLP_HEADER.pack(b"FLhd", 6, project.format, project.channel_count, project.ppq)
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From 6e5c2b4270e6986d2d0662655a03db71f0f23440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 02/38] fix: round instead of truncating when encoding a Log2
 value

Truncation changed the stored integer of an untouched time stretching multiplier.
---
 pyflp/_adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..d63cb03 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
-- 
2.43.0


From 50d1cd3104c66d8b366b3d5714c4383670c184da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 03/38] fix: make LogNormal encoding the inverse of its
 decoding

Truncation and the special case for a zero first integer changed stored
values of untouched sample start / length knobs.
---
 pyflp/_adapters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index d63cb03..8c80e4b 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -80,11 +80,11 @@ class LogNormal(SimpleAdapter[List[int], float]):
         if not obj:  # log2(0.0) --> -inf ==> 0
             return [0, 0]
 
-        return [min(max(self.lo, int(2**12 * (math.log2(obj) + 15))), self.hi), 63]
+        return [min(max(self.lo, round(2**12 * (math.log2(obj) + 15))), self.hi), 63]
 
     def _decode(self, obj: list[int], *_: Any) -> float:
         """Returns a float representation of ``obj[0]`` between 0.0 to 1.0."""
-        if not obj[0]:
+        if not any(obj):
             return 0.0
 
         if obj[1] != 63:
-- 
2.43.0


From b0cb4222c2d0936ac7665b19950bad001b0ea531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 04/38] fix: keep a track's exact height and report the nearest
 percentage

Heights which aren't whole percentages were altered by just saving and
truncated (0.29 was reported as 28%).
---
 pyflp/arrangement.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..a34a230 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -120,21 +120,13 @@ class TrackSync(ct.EnumBase):
     Auto = 6
 
 
-class HeightAdapter(ct.Adapter[float, float, str, str]):
-    def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
-
-    def _encode(self, obj: str, *_: Any) -> float:
-        return int(obj[:-1]) / 100
-
-
 class TrackEvent(StructEventBase):
     STRUCT = c.Struct(
         "iid" / c.Optional(c.Int32ul),  # 4
         "color" / c.Optional(c.Int32ul),  # 8
         "icon" / c.Optional(c.Int32ul),  # 12
         "enabled" / c.Optional(c.Flag),  # 13
-        "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
+        "height" / c.Optional(c.Float32l),  # 17
         "locked_height" / c.Optional(c.Int32sl),  # 21
         "content_locked" / c.Optional(c.Flag),  # 22
         "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
@@ -241,6 +233,16 @@ class _TrackColorProp(StructProp[RGBA]):
         super()._set(ev_or_ins, int.from_bytes(bytes(value), "little"))  # type: ignore
 
 
+class _TrackHeightProp(StructProp[str]):
+    def _get(self, ev_or_ins: Any) -> str | None:
+        value = cast(Optional[float], super()._get(ev_or_ins))
+        if value is not None:
+            return f"{round(value * 100)}%"
+
+    def _set(self, ev_or_ins: Any, value: str) -> None:
+        super()._set(ev_or_ins, int(value[:-1]) / 100)  # type: ignore
+
+
 class _TrackKW(TypedDict):
     items: list[PLItemBase]
 
@@ -293,7 +295,7 @@ class Track(EventModel, ModelCollection[PLItemBase]):
     :guilabel:`&Group with above track`
     """
 
-    height = StructProp[str](TrackID.Data)
+    height = _TrackHeightProp(TrackID.Data)
     """Track height in FL's interface. Linear. :guilabel:`&Size`."""
 
     icon = StructProp[int](TrackID.Data)
-- 
2.43.0


From dd5f04f43d8ac1f3da3bae465c5f07712b7dd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:44 +0000
Subject: [PATCH 05/38] fix: make EventTree append, insert and += work on
 non-empty trees

append() raised IndexError, += rebound the name to None and inserted events
had an unrelated index in every tree, so a later pop() hit the wrong event.
---
 pyflp/_events.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..d4cd7e4 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -443,10 +443,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
@@ -516,7 +517,12 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if not len(self):
+            rootidx = 0
+        elif pos < len(self):
+            rootidx = self.lst[pos].r
+        else:
+            rootidx = self.lst[-1].r + 1
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
@@ -524,7 +530,8 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        ie = IndexedEvent(rootidx, e)  # Shared by all trees, just like existing events
+        self._recursive(lambda et: et.lst.add(ie))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From fafad25d4f7945c0599e5bc6d3950e81a1268720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:44 +0000
Subject: [PATCH 06/38] fix: compare events and not just their indexes in
 EventTree equality

Any two projects (or models) with the same number of events were equal.
---
 pyflp/_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index d4cd7e4..6f2ce59 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -441,7 +441,7 @@ class EventTree:
         if not isinstance(o, EventTree):
             return NotImplemented
 
-        return self.lst == o.lst
+        return self.lst == o.lst and all(e1 == e2 for e1, e2 in zip(self, o))
 
     def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
-- 
2.43.0


From 4cd463577a6645ae1c9eeff0e1ba6e1f90030d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:44 +0000
Subject: [PATCH 07/38] fix: support open, negative and stepped slices of model
 collections

---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..a2a68ff 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return [model for idx, model in enumerate(self) if idx in range(i.start, i.stop)]
+            return list(self)[i]
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From ed62e11f901f297ab74c92d8ff18445fe533a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:44 +0000
Subject: [PATCH 08/38] fix: read and write Slot.enabled and Slot.mix

The descriptor only knew how to look inside an insert's own parameters.
---
 pyflp/mixer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..5300f7d 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -295,16 +295,21 @@ class _MixerParamProp(RWProperty[T]):
     def __init__(self, id: int) -> None:
         self._id = id
 
-    def __get__(self, ins: Insert, owner: object = None) -> T | None:
+    @staticmethod
+    def _get_items(ins: Insert | Slot) -> dict[int, dict[str, Any]]:
+        params = ins._kw["params"]
+        return params.own if isinstance(params, _InsertItems) else params
+
+    def __get__(self, ins: Insert | Slot, owner: object = None) -> T | None:
         if owner is None:
             return NotImplemented
 
-        for id, item in cast(_InsertItems, ins._kw["params"]).own.items():
+        for id, item in self._get_items(ins).items():
             if id == self._id:
                 return item["msg"]
 
-    def __set__(self, ins: Insert, value: T) -> None:
-        for id, item in cast(_InsertItems, ins._kw["params"]).own.items():
+    def __set__(self, ins: Insert | Slot, value: T) -> None:
+        for id, item in self._get_items(ins).items():
             if id == self._id:
                 item["msg"] = value
                 return
@@ -317,8 +322,8 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(self, events: EventTree, params: dict[int, dict[str, Any]] | None = None) -> None:
+        super().__init__(events, params=params or {})
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
-- 
2.43.0


From 50842dbe63f982f9c812cd4ebbbe5ed2dc7eb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:44 +0000
Subject: [PATCH 09/38] fix: don't fail with a KeyError on inserts without
 mixer parameters

---
 pyflp/mixer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 5300f7d..8ffa3f5 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -615,10 +615,8 @@ class Mixer(EventModel, ModelCollection[Insert]):
             params = cast(MixerParamsEvent, self.events.first(MixerID.Params)).items_
 
         for i, ed in enumerate(self.events.subtrees(select, self.max_inserts)):
-            if i in params:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
-            else:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots)
+            items = params[i] if i in params else _InsertItems()
+            yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=items)
 
     def __len__(self) -> int:
         """Returns the number of inserts present in the project.
-- 
2.43.0


From e4bcdac9f6ddac7d8525aa2eef6a1006dbe7d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 10/38] fix: match Insert.routes with the send levels they
 belong to

Routing flags were paired with whatever parameter came next, so the first
route reported the insert's own volume.
---
 pyflp/mixer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 8ffa3f5..6bf8f52 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -518,16 +518,13 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
-        items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
-        for id, item in cast(_InsertItems, self._kw["params"]).own.items():
-            if id >= _MixerParamsID.RouteVolStart:
-                try:
-                    cond = next(items)
-                except StopIteration:
-                    continue
-                else:
-                    if cond:
-                        yield item["msg"]
+        params = cast(_InsertItems, self._kw["params"]).own
+        for idx, routed in enumerate(
+            cast(InsertRoutingEvent, self.events.first(InsertID.Routing)),
+            start=_MixerParamsID.RouteVolStart,
+        ):
+            if routed and idx in params:
+                yield params[idx]["msg"]
 
     separator_shown = FlagProp(_InsertFlags.SeparatorShown, InsertID.Flags)
     """Whether separator is shown before the insert.
-- 
2.43.0


From 80e289bc573ed9331096b34801705600e9047f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 11/38] fix: attribute slot and insert events to the slot /
 insert they end

A slot index is stored after the plugin events of its slot and an output
after the events of its insert. Plugins ended up in the previous slot and
Insert.output was that of the previous insert.
---
 pyflp/mixer.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 6bf8f52..9c17c63 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 import dataclasses
 import enum
+import itertools
 from collections import defaultdict
 from typing import Any, DefaultDict, Iterator, NamedTuple, cast
 
@@ -31,10 +32,10 @@ from pyflp._events import (
     DWORD,
     TEXT,
     WORD,
-    AnyEvent,
     ColorEvent,
     EventEnum,
     EventTree,
+    IndexedEvent,
     I16Event,
     I32Event,
     ListEventBase,
@@ -414,8 +415,16 @@ class Insert(EventModel, ModelCollection[Slot]):
 
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
-        for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
-            yield Slot(ed, params=self._kw["params"].slots[idx])
+        idx = 0
+        el: list[IndexedEvent] = []
+        for ie in self.events.lst:
+            if ie.e.id in (*SlotID, *PluginID):
+                el.append(ie)
+
+            if ie.e.id == SlotID.Index:  # Marks the end of a slot
+                yield Slot(EventTree(self.events, el), params=self._kw["params"].slots.get(idx))
+                idx += 1
+                el = []
 
     def __len__(self) -> int:
         try:
@@ -600,18 +609,21 @@ class Mixer(EventModel, ModelCollection[Insert]):
         raise ModelNotFound(i)
 
     def __iter__(self) -> Iterator[Insert]:
-        def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
+        def inserts() -> Iterator[EventTree]:
+            el: list[IndexedEvent] = []
+            for ie in self.events.lst:
+                if ie.e.id in (*InsertID, *PluginID, *SlotID):
+                    el.append(ie)
 
-            if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
+                if ie.e.id == InsertID.Output:  # Marks the end of an insert
+                    yield EventTree(self.events, el)
+                    el = []
 
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
             params = cast(MixerParamsEvent, self.events.first(MixerID.Params)).items_
 
-        for i, ed in enumerate(self.events.subtrees(select, self.max_inserts)):
+        for i, ed in enumerate(itertools.islice(inserts(), self.max_inserts)):
             items = params[i] if i in params else _InsertItems()
             yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=items)
 
-- 
2.43.0


From d8b43c7e32d83918e27e20ee4cbb1ed26a30d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 12/38] fix: set VST plugin options without clobbering others

Setting a MIDI option replaced the entire record (unserialisable), flags
or'ed a bool instead of the flag and missing records were silently ignored.
---
 pyflp/plugin.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..7146e7b 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -473,8 +474,12 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
-                break
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                else:
+                    e["data"][self._prop] = value
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -496,10 +501,11 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         for e in event["events"]:
             if e["id"] == self._id:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
-                break
+                    e["data"][self._prop] &= ~self._flag
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0


From 2c6416ca450596b46fa2e0b515a5fe71f373217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 13/38] fix: use all 4 bytes of the plugin wrapper flags

_WrapperFlags has members above 16 bits; setting directx made the event
unserialisable and it could never be read as True.
---
 pyflp/plugin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 7146e7b..508592c 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -213,8 +213,7 @@ class WrapperPage(ct.EnumBase):
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
-        "_u2" / c.Optional(c.Bytes(2)),  # 20
+        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
         "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
         "_u3" / c.Optional(c.Bytes(23)),  # 44
         "width" / c.Optional(c.Int32ul),  # 48
-- 
2.43.0


From bec6763244c22691d5e16f600e805be242cd3197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 14/38] fix: set Reverb.mix instead of adding to it

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..c50f9c4 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,7 +651,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From eb04703a2310bf68b3f56921359fdf153349efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 15/38] fix: use the names of the arpeggiator fields in Arp

Every Arp property raised a KeyError.
---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index c50f9c4..ea18cdd 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](prop="arp.direction")
+    gate = StructProp[float](prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From 1056ab57de81e97855b829899fddfdc2ea8b0c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 16/38] fix: set Note.key by its name

It always raised a ValueError, even for valid keys.
---
 pyflp/pattern.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..74f04e7 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -155,11 +155,11 @@ class Note(ItemModel[NotesEvent]):
                 raise ValueError("Expected a value between 0-131.")
             self["key"] = value
         else:
-            for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
-            raise ValueError(f"Invalid key name: {value}")
+            name = value.rstrip("0123456789")
+            octave = value[len(name) :]
+            if name not in self._NOTE_NAMES or not octave:
+                raise ValueError(f"Invalid key name: {value}")
+            self.key = int(octave) * 12 + self._NOTE_NAMES.index(name)
 
     length = StructProp[int]()
     """Returns 0 for notes punched in through step sequencer."""
-- 
2.43.0


From 3312783c8c9f9571a7b37f4d817a8b6fe9a7db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 17/38] fix: read the actual parameter data of a
 RemoteController

The assignment expression captured the result of the None check.
---
 pyflp/controller.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..f152be0 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -57,10 +57,8 @@ class RemoteController(EventModel, ModelReprMixin):
     @property
     def parameter(self) -> int | None:
         """The ID of the plugin parameter to which controller is linked to."""
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return value & 0x7FFF
 
     @property
@@ -69,8 +67,6 @@ class RemoteController(EventModel, ModelReprMixin):
 
         None when linked to a plugin parameter on an insert slot.
         """
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return (value & 0x8000) > 0
-- 
2.43.0


From be06f7a529920da49ea3ca3f665ecd607cec3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 18/38] fix: store the nearest instead of a truncated tempo

e.g. setting 64.001 used to store 64.000. Also don't fail reading the tempo
when just its fine part is stored.
---
 pyflp/project.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..08a4ce3 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 
 import datetime
 import enum
-import math
 import pathlib
 from typing import Final, Literal, cast
 
@@ -453,7 +452,7 @@ class Project(EventModel):
         tempo = None
         if ProjectID._TempoCoarse in self.events.ids:
             tempo = self.events.first(ProjectID._TempoCoarse).value
-        if ProjectID._TempoFine in self.events.ids:
+        if tempo is not None and ProjectID._TempoFine in self.events.ids:
             tempo += self.events.first(ProjectID._TempoFine).value / 1000
         return tempo
 
@@ -471,14 +470,14 @@ class Project(EventModel):
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = round(value * 1000)
 
+        tempo_coarse, tempo_fine = divmod(round(value * 1000), 1000)
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
             self.events.first(ProjectID._TempoFine).value = tempo_fine
 
         if ProjectID._TempoCoarse in self.events.ids:
-            self.events.first(ProjectID._TempoCoarse).value = math.floor(value)
+            self.events.first(ProjectID._TempoCoarse).value = tempo_coarse
 
     @property
     def time_spent(self) -> datetime.timedelta | None:
-- 
2.43.0


From 972a0a7e2a40844a9f728dbc818e4cbbdf7a3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 19/38] fix: order FLVersions with and without a build number

Comparing 12.9.1.x with FLVersion(12, 9, 1) raised a TypeError, which made
the tracks of such projects inaccessible.
---
 pyflp/types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..221196b 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -14,6 +14,7 @@
 from __future__ import annotations
 
 import enum
+import functools
 from collections import UserDict, UserList
 from dataclasses import dataclass
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
@@ -29,13 +30,23 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@functools.total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
     patch: int = 0
     build: int | None = None
 
+    def __lt__(self, o: FLVersion) -> bool:
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+        return self._key < o._key
+
+    @property
+    def _key(self) -> tuple[int, int, int, int]:
+        return (self.major, self.minor, self.patch, -1 if self.build is None else self.build)
+
     def __str__(self) -> str:
         version = f"{self.major}.{self.minor}.{self.patch}"
         if self.build is not None:
-- 
2.43.0


From 8b3f30b04513c0d7c702de3e31a0eda6be12d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:41 +0000
Subject: [PATCH 20/38] fix: don't hand over plugin events of mixer slots to
 the last channel

---
 pyflp/project.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 08a4ce3..95b6b32 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -207,10 +207,18 @@ class Project(EventModel):
     @property
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
+        inserts_began = False
 
         def select(e: AnyEvent) -> bool | None:
+            nonlocal inserts_began
             if e.id == InsertID.Flags:
-                return False
+                inserts_began = True
+            elif e.id == ChannelID.New:
+                inserts_began = False
+
+            # * Prevents accidentally passing on plugins in the mixer
+            if inserts_began and e.id in PluginID:
+                return None
 
             if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
                 return True
-- 
2.43.0


From 6fd689a0310f6875b0e19d9cb9cfe12de0926d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:41 +0000
Subject: [PATCH 21/38] fix: find children of a layer which come after it in
 the channel rack

---
 pyflp/channel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ea18cdd..ccd7a63 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1559,6 +1559,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
     def __iter__(self) -> Iterator[Channel]:
         """Yields all the channels found in the project."""
+        channels: list[Channel] = []
         ch_dict: dict[int, Channel] = {}
         groups = [DisplayGroup(et) for et in self.events.separate(DisplayGroupID.Name)]
 
@@ -1583,8 +1584,11 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
                     ct = Sampler
 
             if iid is not None:
-                cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                channels.append(ct(et, channels=ch_dict, group=groups[groupnum]))
+                ch_dict[iid] = channels[-1]
+
+        # A layer's children can occur after it
+        yield from channels
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From 75726861e77985cd46662e7b63afb11b9af21379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:41 +0000
Subject: [PATCH 22/38] fix: reject a text or data event which is cut short

---
 pyflp/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 562344d..c8e22ae 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -54,7 +54,7 @@ from pyflp._events import (
     UnicodeEvent,
     UnknownDataEvent,
 )
-from pyflp.exceptions import HeaderCorrupted, VersionNotDetected
+from pyflp.exceptions import HeaderCorrupted, InvalidEventChunkSize, VersionNotDetected
 from pyflp.plugin import PluginID, get_event_by_internal_name
 from pyflp.project import VALID_PPQS, FileFormat, Project, ProjectID
 
@@ -131,6 +131,8 @@ def parse(file: pathlib.Path | str) -> Project:
         else:
             size = c.VarInt.parse_stream(stream)
             value = stream.read(size)
+            if len(value) != size:
+                raise InvalidEventChunkSize(size, len(value))
 
         if id == ProjectID.FLVersion:
             parts = value.decode("ascii").rstrip("\0").split(".")
-- 
2.43.0


From 27b35ca1eafcfd8b583b34b7eec1adfc08375741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:41 +0000
Subject: [PATCH 23/38] fix: preserve bytes which aren't part of an event's
 known structure

Newer FL Studio versions store longer structures, whose remainder was lost
on saving.
---
 pyflp/_events.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 6f2ce59..d3c42c2 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -21,6 +21,7 @@ from __future__ import annotations
 
 import abc
 import enum
+import io
 import warnings
 from collections.abc import Callable, Iterable, Iterator, Sequence
 from dataclasses import dataclass, field
@@ -122,7 +123,9 @@ class EventBase(Generic[T]):
 
         self.id = EventEnum(id)
         self._kwds = kwds
-        self.value = self.STRUCT.parse(data, **self._kwds)
+        stream = io.BytesIO(data)
+        self.value = self.STRUCT.parse_stream(stream, **self._kwds)
+        self._rest = stream.read()  # Whatever isn't understood, kept as it is
 
     def __eq__(self, o: object) -> bool:
         if not isinstance(o, EventBase):
@@ -136,7 +139,7 @@ class EventBase(Generic[T]):
 
     def __bytes__(self) -> bytes:
         id = c.Byte.build(self.id)
-        data = self.STRUCT.build(self.value, **self._kwds)
+        data = self.STRUCT.build(self.value, **self._kwds) + self._rest
 
         if self.id < TEXT:
             return id + data
-- 
2.43.0


From 71bc978b9845ff4b658d98b656d95a50496d54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 24/38] fix: don't silently drop struct fields which cannot be
 serialised

construct.Optional swallows errors while building: an out of range value made
the field vanish and shifted all the fields after it. It also added bytes for
missing boolean fields of shorter structures stored by older FL versions.
---
 pyflp/_adapters.py   |  16 +++++
 pyflp/arrangement.py |  36 +++++-----
 pyflp/channel.py     | 156 +++++++++++++++++++++----------------------
 pyflp/controller.py  |  15 +++--
 pyflp/mixer.py       |   8 +--
 pyflp/plugin.py      |  30 ++++-----
 6 files changed, 139 insertions(+), 122 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 8c80e4b..f7889bc 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -31,6 +31,22 @@ FourByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
 )
 
 
+class Maybe(c.Subconstruct):
+    """A field which might not be stored; it is ``None`` in that case.
+
+    Unlike `construct.Optional`, only a ``None`` is omitted when building. A value
+    which cannot be built is an error instead of getting silently left out, which
+    would move all the fields after it.
+    """
+
+    def _parse(self, stream: c.StreamType, context: Any, path: str) -> Any:
+        return c.Optional(self.subcon)._parsereport(stream, context, path)
+
+    def _build(self, obj: Any, stream: c.StreamType, context: Any, path: str) -> Any:
+        if obj is not None:
+            return self.subcon._build(obj, stream, context, path)
+
+
 class List2Tuple(SimpleAdapter[Any, Tuple[int, int]]):
     def _decode(self, obj: c.ListContainer[int], *_: Any) -> tuple[int, int]:
         _1, _2 = tuple(obj)
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index a34a230..25a499c 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -22,7 +22,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, Maybe, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -64,7 +64,7 @@ __all__ = [
 
 
 class PLSelectionEvent(StructEventBase):
-    STRUCT = c.Struct("start" / c.Optional(c.Int32ul), "end" / c.Optional(c.Int32ul)).compile()
+    STRUCT = c.Struct("start" / Maybe(c.Int32ul), "end" / Maybe(c.Int32ul)).compile()
 
 
 class PlaylistEvent(ListEventBase):
@@ -122,22 +122,22 @@ class TrackSync(ct.EnumBase):
 
 class TrackEvent(StructEventBase):
     STRUCT = c.Struct(
-        "iid" / c.Optional(c.Int32ul),  # 4
-        "color" / c.Optional(c.Int32ul),  # 8
-        "icon" / c.Optional(c.Int32ul),  # 12
-        "enabled" / c.Optional(c.Flag),  # 13
-        "height" / c.Optional(c.Float32l),  # 17
-        "locked_height" / c.Optional(c.Int32sl),  # 21
-        "content_locked" / c.Optional(c.Flag),  # 22
-        "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
-        "press" / c.Optional(StdEnum[TrackPress](c.Int32ul)),  # 30
-        "trigger_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 34
-        "queued" / c.Optional(FourByteBool),  # 38
-        "tolerant" / c.Optional(FourByteBool),  # 42
-        "position_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 46
-        "grouped" / c.Optional(c.Flag),  # 47
-        "locked" / c.Optional(c.Flag),  # 48
-        "_u1" / c.Optional(c.GreedyBytes),  # * 66 as of 20.9.1
+        "iid" / Maybe(c.Int32ul),  # 4
+        "color" / Maybe(c.Int32ul),  # 8
+        "icon" / Maybe(c.Int32ul),  # 12
+        "enabled" / Maybe(c.Flag),  # 13
+        "height" / Maybe(c.Float32l),  # 17
+        "locked_height" / Maybe(c.Int32sl),  # 21
+        "content_locked" / Maybe(c.Flag),  # 22
+        "motion" / Maybe(StdEnum[TrackMotion](c.Int32ul)),  # 26
+        "press" / Maybe(StdEnum[TrackPress](c.Int32ul)),  # 30
+        "trigger_sync" / Maybe(StdEnum[TrackSync](c.Int32ul)),  # 34
+        "queued" / Maybe(FourByteBool),  # 38
+        "tolerant" / Maybe(FourByteBool),  # 42
+        "position_sync" / Maybe(StdEnum[TrackSync](c.Int32ul)),  # 46
+        "grouped" / Maybe(c.Flag),  # 47
+        "locked" / Maybe(c.Flag),  # 48
+        "_u1" / Maybe(c.GreedyBytes),  # * 66 as of 20.9.1
     ).compile()
 
 
diff --git a/pyflp/channel.py b/pyflp/channel.py
index ccd7a63..5d19397 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -22,7 +22,7 @@ from typing import Any, Iterator, Literal, Tuple, cast
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, StdEnum
+from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, Maybe, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -121,11 +121,11 @@ class AutomationEvent(StructEventBase):
 
 class DelayEvent(StructEventBase):
     STRUCT = c.Struct(
-        "feedback" / c.Optional(c.Int32ul),
-        "pan" / c.Optional(c.Int32sl),
-        "pitch_shift" / c.Optional(c.Int32sl),
-        "echoes" / c.Optional(c.Int32ul),
-        "time" / c.Optional(c.Int32ul),
+        "feedback" / Maybe(c.Int32ul),
+        "pan" / Maybe(c.Int32sl),
+        "pitch_shift" / Maybe(c.Int32sl),
+        "echoes" / Maybe(c.Int32ul),
+        "time" / Maybe(c.Int32ul),
     ).compile()
 
 
@@ -149,33 +149,33 @@ class LFOShape(ct.EnumBase):
 # FL Studio 2.5.0+
 class EnvelopeLFOEvent(StructEventBase):
     STRUCT = c.Struct(
-        "flags" / c.Optional(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
-        "envelope.enabled" / c.Optional(c.Int32sl),  # 8
-        "envelope.predelay" / c.Optional(c.Int32sl),  # 12
-        "envelope.attack" / c.Optional(c.Int32sl),  # 16
-        "envelope.hold" / c.Optional(c.Int32sl),  # 20
-        "envelope.decay" / c.Optional(c.Int32sl),  # 24
-        "envelope.sustain" / c.Optional(c.Int32sl),  # 28
-        "envelope.release" / c.Optional(c.Int32sl),  # 32
-        "envelope.amount" / c.Optional(c.Int32sl),  # 36
-        "lfo.predelay" / c.Optional(c.Int32ul),  # 40
-        "lfo.attack" / c.Optional(c.Int32ul),  # 44
-        "lfo.amount" / c.Optional(c.Int32sl),  # 48
-        "lfo.speed" / c.Optional(c.Int32ul),  # 52
-        "lfo.shape" / c.Optional(StdEnum[LFOShape](c.Int32sl)),  # 56
-        "envelope.attack_tension" / c.Optional(c.Int32sl),  # 60
-        "envelope.decay_tension" / c.Optional(c.Int32sl),  # 64
-        "envelope.release_tension" / c.Optional(c.Int32sl),  # 68
+        "flags" / Maybe(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
+        "envelope.enabled" / Maybe(c.Int32sl),  # 8
+        "envelope.predelay" / Maybe(c.Int32sl),  # 12
+        "envelope.attack" / Maybe(c.Int32sl),  # 16
+        "envelope.hold" / Maybe(c.Int32sl),  # 20
+        "envelope.decay" / Maybe(c.Int32sl),  # 24
+        "envelope.sustain" / Maybe(c.Int32sl),  # 28
+        "envelope.release" / Maybe(c.Int32sl),  # 32
+        "envelope.amount" / Maybe(c.Int32sl),  # 36
+        "lfo.predelay" / Maybe(c.Int32ul),  # 40
+        "lfo.attack" / Maybe(c.Int32ul),  # 44
+        "lfo.amount" / Maybe(c.Int32sl),  # 48
+        "lfo.speed" / Maybe(c.Int32ul),  # 52
+        "lfo.shape" / Maybe(StdEnum[LFOShape](c.Int32sl)),  # 56
+        "envelope.attack_tension" / Maybe(c.Int32sl),  # 60
+        "envelope.decay_tension" / Maybe(c.Int32sl),  # 64
+        "envelope.release_tension" / Maybe(c.Int32sl),  # 68
     ).compile()
 
 
 class LevelAdjustsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "_u1" / c.Optional(c.Int32ul),  # 12
-        "mod_x" / c.Optional(c.Int32sl),  # 16
-        "mod_y" / c.Optional(c.Int32sl),  # 20
+        "pan" / Maybe(c.Int32sl),  # 4
+        "volume" / Maybe(c.Int32ul),  # 8
+        "_u1" / Maybe(c.Int32ul),  # 12
+        "mod_x" / Maybe(c.Int32sl),  # 16
+        "mod_y" / Maybe(c.Int32sl),  # 20
     ).compile()
 
 
@@ -192,12 +192,12 @@ class FilterType(ct.EnumBase):
 
 class LevelsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "pitch_shift" / c.Optional(c.Int32sl),  # 12
-        "filter.mod_x" / c.Optional(c.Int32ul),  # 16
-        "filter.mod_y" / c.Optional(c.Int32ul),  # 20
-        "filter.type" / c.Optional(StdEnum[FilterType](c.Int32ul)),  # 24
+        "pan" / Maybe(c.Int32sl),  # 4
+        "volume" / Maybe(c.Int32ul),  # 8
+        "pitch_shift" / Maybe(c.Int32sl),  # 12
+        "filter.mod_x" / Maybe(c.Int32ul),  # 16
+        "filter.mod_y" / Maybe(c.Int32ul),  # 20
+        "filter.type" / Maybe(StdEnum[FilterType](c.Int32ul)),  # 24
     ).compile()
 
 
@@ -246,43 +246,43 @@ class StretchMode(ct.EnumBase):
 
 class ParametersEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "fx.remove_dc" / c.Optional(c.Flag),  # 10
-        "delay.flags" / c.Optional(StdEnum[_DelayFlags](c.Int8ul)),  # 11
-        "keyboard.main_pitch" / c.Optional(c.Flag),  # 12
-        "_u2" / c.Optional(c.Bytes(28)),  # 40
-        "arp.direction" / c.Optional(StdEnum[ArpDirection](c.Int32ul)),  # 44
-        "arp.range" / c.Optional(c.Int32ul),  # 48
-        "arp.chord" / c.Optional(c.Int32ul),  # 52
-        "arp.time" / c.Optional(c.Float32l),  # 56
-        "arp.gate" / c.Optional(c.Float32l),  # 60
-        "arp.slide" / c.Optional(c.Flag),  # 61
-        "_u3" / c.Optional(c.Bytes(1)),  # 62
-        "time.full_porta" / c.Optional(c.Flag),  # 63
-        "keyboard.add_root" / c.Optional(c.Flag),  # 64
-        "time.gate" / c.Optional(c.Int16ul),  # 66
-        "_u4" / c.Optional(c.Bytes(2)),  # 68
-        "keyboard.key_region" / c.Optional(List2Tuple(c.Int32ul[2])),  # 76
-        "_u5" / c.Optional(c.Bytes(4)),  # 80
-        "fx.normalize" / c.Optional(c.Flag),  # 81
-        "fx.inverted" / c.Optional(c.Flag),  # 82
-        "_u6" / c.Optional(c.Bytes(1)),  # 83
-        "content.declick_mode" / c.Optional(StdEnum[DeclickMode](c.Int8ul)),  # 84
-        "fx.crossfade" / c.Optional(c.Int32ul),  # 88
-        "fx.trim" / c.Optional(c.Int32ul),  # 92
-        "arp.repeat" / c.Optional(c.Int32ul),  # 96; FL 4.5.2+
-        "stretching.time" / c.Optional(LinearMusical(c.Int32ul)),  # 100
-        "stretching.pitch" / c.Optional(c.Int32sl),  # 104
-        "stretching.multiplier" / c.Optional(Log2(c.Int32sl, 10000)),  # 108
-        "stretching.mode" / c.Optional(StdEnum[StretchMode](c.Int32sl)),  # 112
-        "_u7" / c.Optional(c.Bytes(21)),  # 133
-        "fx.start" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
-        "_u8" / c.Optional(c.Bytes(4)),  # 141
-        "fx.length" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
-        "_u9" / c.Optional(c.Bytes(3)),  # 148
-        "playback.start_offset" / c.Optional(c.Int32ul),  # 152
-        "_u10" / c.Optional(c.Bytes(5)),  # 157
-        "fx.fix_trim" / c.Optional(c.Flag),  # 158 (FL 20.8.4 max)
+        "_u1" / Maybe(c.Bytes(9)),  # 9
+        "fx.remove_dc" / Maybe(c.Flag),  # 10
+        "delay.flags" / Maybe(StdEnum[_DelayFlags](c.Int8ul)),  # 11
+        "keyboard.main_pitch" / Maybe(c.Flag),  # 12
+        "_u2" / Maybe(c.Bytes(28)),  # 40
+        "arp.direction" / Maybe(StdEnum[ArpDirection](c.Int32ul)),  # 44
+        "arp.range" / Maybe(c.Int32ul),  # 48
+        "arp.chord" / Maybe(c.Int32ul),  # 52
+        "arp.time" / Maybe(c.Float32l),  # 56
+        "arp.gate" / Maybe(c.Float32l),  # 60
+        "arp.slide" / Maybe(c.Flag),  # 61
+        "_u3" / Maybe(c.Bytes(1)),  # 62
+        "time.full_porta" / Maybe(c.Flag),  # 63
+        "keyboard.add_root" / Maybe(c.Flag),  # 64
+        "time.gate" / Maybe(c.Int16ul),  # 66
+        "_u4" / Maybe(c.Bytes(2)),  # 68
+        "keyboard.key_region" / Maybe(List2Tuple(c.Int32ul[2])),  # 76
+        "_u5" / Maybe(c.Bytes(4)),  # 80
+        "fx.normalize" / Maybe(c.Flag),  # 81
+        "fx.inverted" / Maybe(c.Flag),  # 82
+        "_u6" / Maybe(c.Bytes(1)),  # 83
+        "content.declick_mode" / Maybe(StdEnum[DeclickMode](c.Int8ul)),  # 84
+        "fx.crossfade" / Maybe(c.Int32ul),  # 88
+        "fx.trim" / Maybe(c.Int32ul),  # 92
+        "arp.repeat" / Maybe(c.Int32ul),  # 96; FL 4.5.2+
+        "stretching.time" / Maybe(LinearMusical(c.Int32ul)),  # 100
+        "stretching.pitch" / Maybe(c.Int32sl),  # 104
+        "stretching.multiplier" / Maybe(Log2(c.Int32sl, 10000)),  # 108
+        "stretching.mode" / Maybe(StdEnum[StretchMode](c.Int32sl)),  # 112
+        "_u7" / Maybe(c.Bytes(21)),  # 133
+        "fx.start" / Maybe(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
+        "_u8" / Maybe(c.Bytes(4)),  # 141
+        "fx.length" / Maybe(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
+        "_u9" / Maybe(c.Bytes(3)),  # 148
+        "playback.start_offset" / Maybe(c.Int32ul),  # 152
+        "_u10" / Maybe(c.Bytes(5)),  # 157
+        "fx.fix_trim" / Maybe(c.Flag),  # 158 (FL 20.8.4 max)
         "_extra" / c.GreedyBytes,  # * 168 as of 20.9.1
     )
 
@@ -296,18 +296,18 @@ class _PolyphonyFlags(enum.IntFlag):
 
 class PolyphonyEvent(StructEventBase):
     STRUCT = c.Struct(
-        "max" / c.Optional(c.Int32ul),  # 4
-        "slide" / c.Optional(c.Int32ul),  # 8
-        "flags" / c.Optional(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
+        "max" / Maybe(c.Int32ul),  # 4
+        "slide" / Maybe(c.Int32ul),  # 8
+        "flags" / Maybe(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
     ).compile()
 
 
 class TrackingEvent(StructEventBase):
     STRUCT = c.Struct(
-        "middle_value" / c.Optional(c.Int32ul),  # 4
-        "pan" / c.Optional(c.Int32sl),  # 8
-        "mod_x" / c.Optional(c.Int32sl),  # 12
-        "mod_y" / c.Optional(c.Int32sl),  # 16
+        "middle_value" / Maybe(c.Int32ul),  # 4
+        "pan" / Maybe(c.Int32sl),  # 8
+        "mod_x" / Maybe(c.Int32sl),  # 12
+        "mod_y" / Maybe(c.Int32sl),  # 16
     ).compile()
 
 
diff --git a/pyflp/controller.py b/pyflp/controller.py
index f152be0..cb23777 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -20,6 +20,7 @@ from typing import cast
 
 import construct as c
 
+from pyflp._adapters import Maybe
 from pyflp._events import DATA, EventEnum, StructEventBase
 from pyflp._models import EventModel, ModelReprMixin
 
@@ -32,13 +33,13 @@ class MIDIControllerEvent(StructEventBase):
 
 class RemoteControllerEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(2)),  # 2
-        "_u2" / c.Optional(c.Byte),  # 3
-        "_u3" / c.Optional(c.Byte),  # 4
-        "parameter_data" / c.Optional(c.Int16ul),  # 6
-        "destination_data" / c.Optional(c.Int16sl),  # 8
-        "_u4" / c.Optional(c.Bytes(8)),  # 16
-        "_u5" / c.Optional(c.Bytes(4)),  # 20
+        "_u1" / Maybe(c.Bytes(2)),  # 2
+        "_u2" / Maybe(c.Byte),  # 3
+        "_u3" / Maybe(c.Byte),  # 4
+        "parameter_data" / Maybe(c.Int16ul),  # 6
+        "destination_data" / Maybe(c.Int16sl),  # 8
+        "_u4" / Maybe(c.Bytes(8)),  # 16
+        "_u5" / Maybe(c.Bytes(4)),  # 20
     ).compile()
 
 
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 9c17c63..a5ad7a7 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -25,7 +25,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import NotRequired, TypedDict, Unpack
 
-from pyflp._adapters import StdEnum
+from pyflp._adapters import Maybe, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NamedPropMixin, ROProperty, RWProperty
 from pyflp._events import (
     DATA,
@@ -105,9 +105,9 @@ class _MixerParamsID(ct.EnumBase):
 
 class InsertFlagsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(4)),  # 4
-        "flags" / c.Optional(StdEnum[_InsertFlags](c.Int32ul)),  # 8
-        "_u2" / c.Optional(c.Bytes(4)),  # 12
+        "_u1" / Maybe(c.Bytes(4)),  # 4
+        "flags" / Maybe(StdEnum[_InsertFlags](c.Int32ul)),  # 8
+        "_u2" / Maybe(c.Bytes(4)),  # 12
     ).compile()
 
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 508592c..b224f91 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -22,7 +22,7 @@ from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cas
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, Maybe, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
     DATA,
@@ -212,12 +212,12 @@ class WrapperPage(ct.EnumBase):
 
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
-        "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
-        "_u3" / c.Optional(c.Bytes(23)),  # 44
-        "width" / c.Optional(c.Int32ul),  # 48
-        "height" / c.Optional(c.Int32ul),  # 52
+        "_u1" / Maybe(c.Bytes(16)),  # 16
+        "flags" / Maybe(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
+        "page" / Maybe(StdEnum[WrapperPage](c.Int8ul)),  # 21
+        "_u3" / Maybe(c.Bytes(23)),  # 44
+        "width" / Maybe(c.Int32ul),  # 48
+        "height" / Maybe(c.Int32ul),  # 52
         "_extra" / c.GreedyBytes,  # None as of 20.9.2
     ).compile()
 
@@ -269,18 +269,18 @@ class _VSTFlags2(enum.IntFlag):
 
 class VSTPluginEvent(StructEventBase):
     _MIDIStruct = c.Struct(
-        "input" / c.Optional(c.Int32sl),  # 4
-        "output" / c.Optional(c.Int32sl),  # 8
-        "pb_range" / c.Optional(c.Int32ul),  # 12
+        "input" / Maybe(c.Int32sl),  # 4
+        "output" / Maybe(c.Int32sl),  # 8
+        "pb_range" / Maybe(c.Int32ul),  # 12
         "_extra" / c.GreedyBytes,  # upto 20
     ).compile()
 
     _FlagsStruct = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "flags" / c.Optional(StdEnum[_VSTFlags](c.Int32ul)),  # 13
-        "flags2" / c.Optional(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
-        "_u2" / c.Optional(c.Bytes(5)),  # 22
-        "fast_idle" / c.Optional(c.Flag),  # 23
+        "_u1" / Maybe(c.Bytes(9)),  # 9
+        "flags" / Maybe(StdEnum[_VSTFlags](c.Int32ul)),  # 13
+        "flags2" / Maybe(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
+        "_u2" / Maybe(c.Bytes(5)),  # 22
+        "fast_idle" / Maybe(c.Flag),  # 23
         "_extra" / c.GreedyBytes,
     ).compile()
 
-- 
2.43.0


From a936e82476b72204149ffc05469a721d63317cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 25/38] fix: raise PropertyCannotBeSet when the flags to be set
 aren't stored

A TypeError was raised instead.
---
 pyflp/_descriptors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 22b5e34..c43a6dc 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -158,6 +158,9 @@ class FlagProp(PropBase[bool]):
             value = not value
 
         if isinstance(ev_or_ins, (ItemModel, StructEventBase)):
+            if ev_or_ins[self._prop] is None:
+                raise PropertyCannotBeSet(*self._ids)
+
             if value:
                 ev_or_ins[self._prop] |= self._flag
             else:
-- 
2.43.0


From 2f4909a8f62c19cc2318d4275d81d75256ac72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 26/38] fix: return None for Insert.dock when the flags aren't
 stored

---
 pyflp/mixer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index a5ad7a7..13c4c4a 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -461,6 +461,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         except KeyError:
             return None
 
+        if event["flags"] is None:
+            return None
+
         flags = _InsertFlags(event["flags"])
         if _InsertFlags.DockMiddle in flags:
             return InsertDock.Middle
-- 
2.43.0


From 2de5f838cf84dae16804a0ba964d22205b8fcfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:38 +0000
Subject: [PATCH 27/38] fix: keep the stored form of untouched booleans and
 strings

FL Studio stores truth as any non-zero byte and need not terminate a string
with exactly one NUL. Such events were altered just by saving a project.
---
 pyflp/_events.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index d3c42c2..784427b 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -139,7 +139,7 @@ class EventBase(Generic[T]):
 
     def __bytes__(self) -> bytes:
         id = c.Byte.build(self.id)
-        data = self.STRUCT.build(self.value, **self._kwds) + self._rest
+        data = self._build()
 
         if self.id < TEXT:
             return id + data
@@ -147,6 +147,9 @@ class EventBase(Generic[T]):
         length = c.VarInt.build(len(data))
         return id + length + data
 
+    def _build(self) -> bytes:
+        return self.STRUCT.build(self.value, **self._kwds) + self._rest
+
     def __repr__(self) -> str:
         return f"<{type(self)!r}(id={self.id!r}, value={self.value!r})>"
 
@@ -167,6 +170,21 @@ class EventBase(Generic[T]):
 AnyEvent: TypeAlias = EventBase[Any]
 
 
+class _VerbatimMixin:
+    """Keeps the stored form of a value which has more than one representation.
+
+    For example, FL Studio stores truth as any non-zero byte.
+    """
+
+    def __init__(self, id: EventEnum, data: bytes) -> None:
+        super().__init__(id, data)  # type: ignore
+        self._stored = self.value, data
+
+    def _build(self) -> bytes:
+        value, data = self._stored
+        return data if self.value == value else super()._build()  # type: ignore
+
+
 class ByteEventBase(EventBase[T]):
     """Base class of events used for storing 1 byte data."""
 
@@ -185,7 +203,7 @@ class ByteEventBase(EventBase[T]):
         super().__init__(id, data)
 
 
-class BoolEvent(ByteEventBase[bool]):
+class BoolEvent(_VerbatimMixin, ByteEventBase[bool]):
     """An event used for storing a boolean."""
 
     STRUCT = c.Flag
@@ -289,7 +307,7 @@ class ColorEvent(DWordEventBase[RGBA]):
     )
 
 
-class StrEventBase(EventBase[str]):
+class StrEventBase(_VerbatimMixin, EventBase[str]):
     """Base class of events used for storing strings."""
 
     ALLOWED_IDS = (*range(TEXT, DATA), *NEW_TEXT_IDS)
-- 
2.43.0


From e61a7411abbba18c8cd681a1935e8db70c1daf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:48 +0000
Subject: [PATCH 28/38] fix: treat properties of a model without events as not
 set

Reading e.g. Sampler.polyphony.max failed with an IndexError when the channel
doesn't store a polyphony event.
---
 pyflp/_descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index c43a6dc..e93f3c7 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -74,7 +74,7 @@ class PropBase(abc.ABC, RWProperty[T]):
             if len(ins.events) > 1:  # Prevent ambiguous situations
                 raise LookupError("Event ID not specified")
 
-            return tuple(ins.events)[0]
+            return next(iter(ins.events), None)
 
         for id in self._ids:
             if id in ins.events:
-- 
2.43.0


From 9b6d988e75d46dd30f61274bd43c2beeaeccaa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 29/38] fix: use signed integers for bipolar plugin parameters

FruityBalance.pan, FruityStereoEnhancer.stereo_separation and phase_offset have
a documented range which includes negative values.
---
 pyflp/plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index b224f91..2b48cad 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -97,7 +97,7 @@ class FruitKickEvent(StructEventBase):
 
 
 class FruityBalanceEvent(StructEventBase):
-    STRUCT = c.Struct("pan" / c.Int32ul, "volume" / c.Int32ul).compile()
+    STRUCT = c.Struct("pan" / c.Int32sl, "volume" / c.Int32ul).compile()
 
 
 class FruityBloodOverdriveEvent(StructEventBase):
@@ -164,8 +164,8 @@ class FruityStereoEnhancerEvent(StructEventBase):
     STRUCT = c.Struct(
         "pan" / c.Int32sl,
         "volume" / c.Int32ul,
-        "stereo_separation" / c.Int32ul,
-        "phase_offset" / c.Int32ul,
+        "stereo_separation" / c.Int32sl,
+        "phase_offset" / c.Int32sl,
         "effect_position" / c.Enum(c.Int32ul, pre=0, post=1),
         "phase_inversion" / c.Enum(c.Int32ul, none=0, left=1, right=2),
     ).compile()
-- 
2.43.0


From 1ec22f0101e0b2688c94c3d2c06062f0f31b837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 30/38] fix: yield no routes for an insert which doesn't store
 any

---
 pyflp/mixer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 13c4c4a..4d54746 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -530,6 +530,9 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
+        if InsertID.Routing not in self.events.ids:
+            return
+
         params = cast(_InsertItems, self._kw["params"]).own
         for idx, routed in enumerate(
             cast(InsertRoutingEvent, self.events.first(InsertID.Routing)),
-- 
2.43.0


From 08e5a20fdc96b1d450a71e5882ec43301edd1a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:04 +0000
Subject: [PATCH 31/38] fix: don't fail with a KeyError on an EQ without some
 of its parameters

InsertEQ.size (and so its repr) always failed with a KeyError.
---
 pyflp/mixer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 4d54746..5f3786d 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -195,9 +195,14 @@ class _InsertEQBandProp(NamedPropMixin, RWProperty[int]):
     def __get__(self, ins: InsertEQBand, owner: Any = None) -> int | None:
         if owner is None:
             return NotImplemented
-        return ins._kw[self._prop]["msg"]
+
+        if self._prop in ins._kw:
+            return ins._kw[self._prop]["msg"]
 
     def __set__(self, ins: InsertEQBand, value: int) -> None:
+        if self._prop not in ins._kw:
+            raise PropertyCannotBeSet
+
         ins._kw[self._prop]["msg"] = value
 
 
@@ -274,7 +279,7 @@ class InsertEQ(ModelBase, ModelReprMixin):
 
     @property
     def size(self) -> int:
-        return 12 * self._kw["param"]  # ! TODO
+        return self.low.size + self.mid.size + self.high.size
 
     low = _InsertEQProp(
         _InsertEQPropArgs(_MixerParamsID.LowFreq, _MixerParamsID.LowGain, _MixerParamsID.LowQ)
-- 
2.43.0


From 28721a7cccb8bfc2d1314994b2cdad6a94a84843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:08 +0000
Subject: [PATCH 32/38] fix: don't yield a subtree when there is nothing to
 divide

An arrangement without tracks had an empty one and iterating over a rack
without channels failed with a KeyError.
---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 784427b..d6be67f 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -513,7 +513,8 @@ class EventTree:
 
             if ie.e.id in ids:
                 el.append(ie)
-        yield EventTree(self, el)  # Yield the last one
+        if not first:
+            yield EventTree(self, el)  # Yield the last one
 
     def first(self, id: EventEnum) -> AnyEvent:
         """Returns the first event with :attr:`id`.
-- 
2.43.0


From 431e5ef5b9ce578cafa9e1ec6cb6f85a3415ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:34 +0000
Subject: [PATCH 33/38] fix: return the pages of a notebook as a dict, as
 documented

---
 pyflp/plugin.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 2b48cad..5683cc9 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -452,6 +452,22 @@ class _NativePluginProp(StructProp[T]):
         super().__init__(PluginID.Data, prop=prop, **kwds)
 
 
+class _NotebookPagesProp(_NativePluginProp[Dict[int, str]]):
+    """Stored as a list of pages which is terminated by an index of -1."""
+
+    def _get(self, ev_or_ins: Any) -> dict[int, str]:
+        pages = cast(Any, super()._get(ev_or_ins))
+        return {page["index"]: page["value"] for page in pages if page["index"] != -1}
+
+    def _set(self, ev_or_ins: Any, value: dict[int, str]) -> None:
+        end = [page for page in cast(Any, super()._get(ev_or_ins)) if page["index"] == -1]
+        pages = [
+            c.Container(index=index, length=len(text.encode("utf-16-le")) // 2, value=text)
+            for index, text in value.items()
+        ]
+        super()._set(ev_or_ins, cast(Any, c.ListContainer(pages + end)))
+
+
 class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def __init__(self, id: _VSTPluginEventID, prop: str | None = None) -> None:
         self._id = id
@@ -971,7 +987,7 @@ class FruityNotebook2(_PluginBase[FruityNotebook2Event], _IPlugin, ModelReprMixi
     This attribute is just a visual marker used by FL Studio.
     """
 
-    pages = _NativePluginProp[Dict[int, str]]()
+    pages = _NotebookPagesProp()
     """A dict of page numbers to their contents."""
 
 
-- 
2.43.0


From ff4e9fd605c1c454ed158b9478c0798fbac342d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:07 +0000
Subject: [PATCH 34/38] fix: attach views of an empty event tree to their root

---
 pyflp/_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index d6be67f..2f61977 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -451,7 +451,7 @@ class EventTree:
 
         while parent is not None and parent.parent is not None:
             parent = parent.parent
-        self.root = parent or self
+        self.root = self if parent is None else parent  # An empty tree is falsy
 
     def __contains__(self, id: EventEnum) -> bool:
         """Whether the key :attr:`id` exists in the list."""
-- 
2.43.0


From 35e31bdcb71c5ff4babbe2eb84929b02112fd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:20 +0000
Subject: [PATCH 35/38] fix: yield the last arrangement when no other event
 follows it

---
 pyflp/_events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 2f61977..73701ad 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -620,6 +620,9 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
+        if repeat and el:  # Events after the last False
+            yield EventTree(self, el)
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
-- 
2.43.0


From cb3173e82bede30f1be4c1ba3f36f58b14a19097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:18 +0000
Subject: [PATCH 36/38] fix: make every handle of a playlist item follow its
 re-pointing

---
 pyflp/arrangement.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 25a499c..b8eeb2f 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -199,11 +199,11 @@ class ChannelPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def channel(self) -> Channel:
-        return self._kw["channel"]
+        return self._kw["channels"][self["item_index"]]
 
     @channel.setter
     def channel(self, channel: Channel) -> None:
-        self._kw["channel"] = channel
+        self._kw["channels"][channel.iid] = channel
         self["item_index"] = channel.iid
 
 
@@ -215,11 +215,11 @@ class PatternPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def pattern(self) -> Pattern:
-        return self._kw["pattern"]
+        return self._kw["patterns"][self["item_index"] - self["pattern_base"]]
 
     @pattern.setter
     def pattern(self, pattern: Pattern) -> None:
-        self._kw["pattern"] = pattern
+        self._kw["patterns"][pattern.iid] = pattern
         self["item_index"] = pattern.iid + self["pattern_base"]
 
 
@@ -393,11 +393,9 @@ class Arrangement(EventModel):
                     continue
 
                 if item["item_index"] <= item["pattern_base"]:
-                    iid = item["item_index"]
-                    items.append(ChannelPLItem(item, i, pl_evt, channel=channels[iid]))
+                    items.append(ChannelPLItem(item, i, pl_evt, channels=channels))
                 else:
-                    num = item["item_index"] - item["pattern_base"]
-                    items.append(PatternPLItem(item, i, pl_evt, pattern=patterns[num]))
+                    items.append(PatternPLItem(item, i, pl_evt, patterns=patterns))
             yield Track(ed, items=items)
 
 
-- 
2.43.0


From 6164d61c1274c82fb18916012dead3d45eaee300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:52 +0000
Subject: [PATCH 37/38] fix: refuse to assign a plugin to a channel or slot
 that stores none

Assigning Slot.plugin or Instrument.plugin where there is no plugin data (or
a wrapper on one side only) changed just the internal name, or raised after
having replaced some of the events.
---
 pyflp/plugin.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 5683cc9..bd88f6f 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -438,6 +438,13 @@ class PluginProp(RWProperty[AnyPlugin]):
                 return ptype(self._get_plugin_events(ins))
 
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
+        if PluginID.Data not in ins.events:
+            raise PropertyCannotBeSet(PluginID.Data)
+
+        for id in (PluginID.Data, PluginID.Wrapper):
+            if id in ins.events and id not in value.events:
+                raise PropertyCannotBeSet(id)
+
         if isinstance(value, _IPlugin):
             setattr(ins, "internal_name", value.INTERNAL_NAME)
 
-- 
2.43.0


From 686dc732afcc77cc0b81d531263bdf1ec52f9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:07 +0000
Subject: [PATCH 38/38] fix: don't write VST settings beyond the end of a short
 record

A MIDI or flags record may end before a setting. Reading a flag then raised
TypeError and writing such a setting stored it in the place of another one.
---
 pyflp/plugin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index bd88f6f..d63672f 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -498,6 +498,8 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
             if e["id"] == self._id:
                 if isinstance(e["data"], (str, bytes)):
                     e["data"] = value
+                elif e["data"][self._prop] is None:  # The record ends before it
+                    break
                 else:
                     e["data"][self._prop] = value
                 return
@@ -512,7 +514,10 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         self._flag = flag
         self._inverted = inverted
 
-    def _get(self, value: Any) -> bool:
+    def _get(self, value: Any) -> bool | None:
+        if value[self._prop] is None:
+            return None
+
         retbool = self._flag in value[self._prop]
         return retbool if not self._inverted else not retbool
 
@@ -521,7 +526,7 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
             value = not value
 
         for e in event["events"]:
-            if e["id"] == self._id:
+            if e["id"] == self._id and e["data"][self._prop] is not None:
                 if value:
                     e["data"][self._prop] |= self._flag
                 else:
-- 
2.43.0

