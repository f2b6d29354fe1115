From cd1f6ef9a1531cb4610b80abecce88aeb0685d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 01/28] fix: Arp properties looked up keys which do not exist
 in the event

---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..f3b4a92 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](ChannelID.Parameters, prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](ChannelID.Parameters, prop="arp.direction")
+    gate = StructProp[float](ChannelID.Parameters, prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](ChannelID.Parameters, prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](ChannelID.Parameters, prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](ChannelID.Parameters, prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](ChannelID.Parameters, prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From 52c96ab647d3676f0a00b521cae468d74475e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 02/28] fix: Note.key could not be set from a note name

---
 pyflp/pattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..4f1f43f 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -156,9 +156,10 @@ class Note(ItemModel[NotesEvent]):
             self["key"] = value
         else:
             for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
+                octave = value[len(name) :]
+                if value.startswith(name) and octave.isdecimal():
+                    self.key = int(octave) * 12 + i
+                    return
             raise ValueError(f"Invalid key name: {value}")
 
     length = StructProp[int]()
-- 
2.43.0


From c8f39b0fdc869604a872844383305282043ef0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 03/28] fix: Reverb.mix setter added to the current mix instead
 of replacing it

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index f3b4a92..2a8c89e 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,7 +651,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From f6857c331549b1a614eb9821ff4eaaf424a4d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 04/28] fix: RemoteController bound the result of a None check
 instead of parameter data

---
 pyflp/controller.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..5947e18 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -59,8 +59,7 @@ class RemoteController(EventModel, ModelReprMixin):
         """The ID of the plugin parameter to which controller is linked to."""
         if (
             value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        ) is not None:
             return value & 0x7FFF
 
     @property
@@ -71,6 +70,5 @@ class RemoteController(EventModel, ModelReprMixin):
         """
         if (
             value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        ) is not None:
             return (value & 0x8000) > 0
-- 
2.43.0


From 0438a2039a820b349f4061121229a44685278fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 05/28] fix: VST flag setters used the new value as the bit
 mask

---
 pyflp/plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..ddea487 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -496,9 +496,9 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         for e in event["events"]:
             if e["id"] == self._id:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
+                    e["data"][self._prop] &= ~self._flag
                 break
 
 
-- 
2.43.0


From ceb23a52dd9f3a0ef798838ed67944885988263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 06/28] fix: setting one field of a VST record replaced the
 entire record

---
 pyflp/plugin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index ddea487..53b0988 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -473,7 +473,10 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                else:
+                    e["data"][self._prop] = value
                 break
 
 
-- 
2.43.0


From faf52b58611c69fd2caada97488b0ffc294cd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:28 +0000
Subject: [PATCH 07/28] fix: mixer slot parameters and inserts without
 parameters were inaccessible

---
 pyflp/mixer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..de9f1c6 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -317,8 +317,10 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(
+        self, events: EventTree, params: dict[int, dict[str, Any]] | None = None
+    ) -> None:
+        super().__init__(events, params=_InsertItems(own=params or {}))
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
@@ -379,6 +381,7 @@ class Insert(EventModel, ModelCollection[Slot]):
     """
 
     def __init__(self, events: EventTree, **kw: Unpack[_InsertKW]) -> None:
+        kw.setdefault("params", _InsertItems())
         super().__init__(events, **kw)
 
     # TODO Add number of used slots
-- 
2.43.0


From 4cc04f88faece6850b5230e524f3d09a58a2a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:53 +0000
Subject: [PATCH 08/28] fix: slicing a collection ignored the step and failed
 for omitted or negative bounds

---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..a2a68ff 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return [model for idx, model in enumerate(self) if idx in range(i.start, i.stop)]
+            return list(self)[i]
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From d95e3956b997c44811f8070207ae1939cc9a90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:16 +0000
Subject: [PATCH 09/28] fix: an insert contained the output of the previous
 insert instead of its own

---
 pyflp/_events.py |  3 +++
 pyflp/mixer.py   | 10 ++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..35aa155 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -591,6 +591,9 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
+        if el and repeat:
+            yield EventTree(self, el)  # Yield the last one
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index de9f1c6..99e9423 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -601,12 +601,14 @@ class Mixer(EventModel, ModelCollection[Insert]):
         raise ModelNotFound(i)
 
     def __iter__(self) -> Iterator[Insert]:
-        def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
+        ended = False
 
+        def select(e: AnyEvent) -> bool | None:
+            nonlocal ended
             if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
+                # The output is the last event of an insert
+                began_next, ended = ended, e.id == InsertID.Output
+                return not began_next
 
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
-- 
2.43.0


From 8b93d1737ca58922fe4afc1b0c296ad07c893064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:16 +0000
Subject: [PATCH 10/28] fix: a slot contained the plugin events of the slot
 after it

---
 pyflp/mixer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 99e9423..34ac504 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -412,7 +412,16 @@ class Insert(EventModel, ModelCollection[Slot]):
 
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
-        for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
+        ended = False
+
+        def select(e: AnyEvent) -> bool | None:
+            nonlocal ended
+            if e.id in (*SlotID, *PluginID):
+                # The index is the last event of a slot
+                began_next, ended = ended, e.id == SlotID.Index
+                return not began_next
+
+        for idx, ed in enumerate(self.events.subtrees(select, -1)):
             yield Slot(ed, params=self._kw["params"].slots[idx])
 
     def __len__(self) -> int:
-- 
2.43.0


From 37ac258a394f15ef7931c6b391c3439d41c1fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:16 +0000
Subject: [PATCH 11/28] fix: events could not be appended and inserted ones
 were not shared between trees

---
 pyflp/_events.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 35aa155..07f5a9b 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -443,10 +443,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
@@ -516,7 +517,12 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if not len(self):
+            rootidx = 0
+        elif pos < len(self):
+            rootidx = self.lst[pos].r
+        else:
+            rootidx = self.lst[-1].r + 1
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
@@ -524,7 +530,9 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        # Shared by all the trees, just like those present from the beginning
+        new = IndexedEvent(rootidx, e)
+        self._recursive(lambda et: et.lst.add(new))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From 4ac0d806d131d3ff068fb020a1f90a1f1606cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:54 +0000
Subject: [PATCH 12/28] fix: save replaced the channel count in the header and
 failed without channels

---
 pyflp/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..562344d 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,8 +184,7 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
+    header = FLP_HEADER.pack(b"FLhd", 6, project.format, project.channel_count, project.ppq)
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From bce1fd1dfa0a12b1a186e8738e845487d40d1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:54 +0000
Subject: [PATCH 13/28] fix: tempo truncated the third decimal and could not be
 read without a coarse tempo

---
 pyflp/project.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..254f34e 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -453,7 +453,7 @@ class Project(EventModel):
         tempo = None
         if ProjectID._TempoCoarse in self.events.ids:
             tempo = self.events.first(ProjectID._TempoCoarse).value
-        if ProjectID._TempoFine in self.events.ids:
+        if tempo is not None and ProjectID._TempoFine in self.events.ids:
             tempo += self.events.first(ProjectID._TempoFine).value / 1000
         return tempo
 
@@ -471,10 +471,10 @@ class Project(EventModel):
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = round(value * 1000)
 
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
+            value, tempo_fine = divmod(round(value * 1000), 1000)
             self.events.first(ProjectID._TempoFine).value = tempo_fine
 
         if ProjectID._TempoCoarse in self.events.ids:
-- 
2.43.0


From 054c154cf682774ba79257b41b7613075b1643e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:54 +0000
Subject: [PATCH 14/28] fix: logarithmic values decreased by one when saved

---
 pyflp/_adapters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..5d3b898 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
@@ -80,7 +80,7 @@ class LogNormal(SimpleAdapter[List[int], float]):
         if not obj:  # log2(0.0) --> -inf ==> 0
             return [0, 0]
 
-        return [min(max(self.lo, int(2**12 * (math.log2(obj) + 15))), self.hi), 63]
+        return [min(max(self.lo, round(2**12 * (math.log2(obj) + 15))), self.hi), 63]
 
     def _decode(self, obj: list[int], *_: Any) -> float:
         """Returns a float representation of ``obj[0]`` between 0.0 to 1.0."""
-- 
2.43.0


From 310ebd8d110e8ed994560abe19795612821599d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:54 +0000
Subject: [PATCH 15/28] fix: iterating over channels or tracks failed when
 there were none

---
 pyflp/_events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 07f5a9b..d992bec 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -492,7 +492,8 @@ class EventTree:
 
             if ie.e.id in ids:
                 el.append(ie)
-        yield EventTree(self, el)  # Yield the last one
+        if not first:
+            yield EventTree(self, el)  # Yield the last one
 
     def first(self, id: EventEnum) -> AnyEvent:
         """Returns the first event with :attr:`id`.
-- 
2.43.0


From ace06e0d824ca23dc8e84ac2f966b9a8d65b5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:54 +0000
Subject: [PATCH 16/28] fix: the last channel contained the plugin events of
 mixer slots

---
 pyflp/project.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyflp/project.py b/pyflp/project.py
index 254f34e..a757723 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -209,8 +209,16 @@ class Project(EventModel):
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
 
+        inserts_began = False
+
         def select(e: AnyEvent) -> bool | None:
+            nonlocal inserts_began
             if e.id == InsertID.Flags:
+                inserts_began = True
+                return False
+
+            # * Prevents accidentally passing on plugins used in mixer slots
+            if inserts_began and e.id in PluginID:
                 return False
 
             if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
-- 
2.43.0


From b1521dbee18d029859c6fab288560776e0bd09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:19 +0000
Subject: [PATCH 17/28] fix: children of a layer which occur after it were not
 found

---
 pyflp/channel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 2a8c89e..e13e419 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1560,6 +1560,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
     def __iter__(self) -> Iterator[Channel]:
         """Yields all the channels found in the project."""
         ch_dict: dict[int, Channel] = {}
+        channels: list[Channel] = []
         groups = [DisplayGroup(et) for et in self.events.separate(DisplayGroupID.Name)]
 
         for et in self.events.divide(ChannelID.New, *ChannelID, *PluginID):
@@ -1584,7 +1585,9 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
             if iid is not None:
                 cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                channels.append(cur_ch)
+
+        yield from channels  # A layer's children can occur after it
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From 24454be430b909dbd37a64baf16ceceaf29d5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:19 +0000
Subject: [PATCH 18/28] fix: heights of tracks decreased by a percent when
 saved

---
 pyflp/arrangement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..50f259c 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -122,7 +122,7 @@ class TrackSync(ct.EnumBase):
 
 class HeightAdapter(ct.Adapter[float, float, str, str]):
     def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
+        return str(round(obj * 100)) + "%"
 
     def _encode(self, obj: str, *_: Any) -> float:
         return int(obj[:-1]) / 100
-- 
2.43.0


From daf2a0e659bb2feaa09af6692ca5d1fc04665d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:19 +0000
Subject: [PATCH 19/28] fix: versions with and without a build could not be
 ordered

---
 pyflp/types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..cd40551 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -14,6 +14,7 @@
 from __future__ import annotations
 
 import enum
+import functools
 from collections import UserDict, UserList
 from dataclasses import dataclass
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
@@ -29,13 +30,23 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@functools.total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
     patch: int = 0
     build: int | None = None
 
+    def __lt__(self, o: object) -> bool:
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+        # A version without a build is ordered before those with one
+        return self._ordering() < o._ordering()
+
+    def _ordering(self) -> tuple[int, int, int, int]:
+        return self.major, self.minor, self.patch, -1 if self.build is None else self.build
+
     def __str__(self) -> str:
         version = f"{self.major}.{self.minor}.{self.patch}"
         if self.build is not None:
-- 
2.43.0


From 6a238f24d1860f96d49a350c3f23d660e9e016f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 20/28] fix: booleans absent from a shorter event were added to
 it when saved

---
 pyflp/_adapters.py   |  6 ++++++
 pyflp/arrangement.py | 10 +++++-----
 pyflp/channel.py     | 18 +++++++++---------
 pyflp/plugin.py      |  4 ++--
 4 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 5d3b898..37e50b5 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -31,6 +31,12 @@ FourByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
 )
 
 
+# Unlike `c.Flag`, refuses to build an absent (None) value
+OneByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
+    c.Int8ul, lambda obj_, *_: bool(obj_), lambda obj_, *_: int(obj_)  # type: ignore
+)
+
+
 class List2Tuple(SimpleAdapter[Any, Tuple[int, int]]):
     def _decode(self, obj: c.ListContainer[int], *_: Any) -> tuple[int, int]:
         _1, _2 = tuple(obj)
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 50f259c..d126cd5 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -22,7 +22,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, OneByteBool, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -133,18 +133,18 @@ class TrackEvent(StructEventBase):
         "iid" / c.Optional(c.Int32ul),  # 4
         "color" / c.Optional(c.Int32ul),  # 8
         "icon" / c.Optional(c.Int32ul),  # 12
-        "enabled" / c.Optional(c.Flag),  # 13
+        "enabled" / c.Optional(OneByteBool),  # 13
         "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
         "locked_height" / c.Optional(c.Int32sl),  # 21
-        "content_locked" / c.Optional(c.Flag),  # 22
+        "content_locked" / c.Optional(OneByteBool),  # 22
         "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
         "press" / c.Optional(StdEnum[TrackPress](c.Int32ul)),  # 30
         "trigger_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 34
         "queued" / c.Optional(FourByteBool),  # 38
         "tolerant" / c.Optional(FourByteBool),  # 42
         "position_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 46
-        "grouped" / c.Optional(c.Flag),  # 47
-        "locked" / c.Optional(c.Flag),  # 48
+        "grouped" / c.Optional(OneByteBool),  # 47
+        "locked" / c.Optional(OneByteBool),  # 48
         "_u1" / c.Optional(c.GreedyBytes),  # * 66 as of 20.9.1
     ).compile()
 
diff --git a/pyflp/channel.py b/pyflp/channel.py
index e13e419..b144642 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -22,7 +22,7 @@ from typing import Any, Iterator, Literal, Tuple, cast
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, StdEnum
+from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, OneByteBool, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -247,25 +247,25 @@ class StretchMode(ct.EnumBase):
 class ParametersEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "fx.remove_dc" / c.Optional(c.Flag),  # 10
+        "fx.remove_dc" / c.Optional(OneByteBool),  # 10
         "delay.flags" / c.Optional(StdEnum[_DelayFlags](c.Int8ul)),  # 11
-        "keyboard.main_pitch" / c.Optional(c.Flag),  # 12
+        "keyboard.main_pitch" / c.Optional(OneByteBool),  # 12
         "_u2" / c.Optional(c.Bytes(28)),  # 40
         "arp.direction" / c.Optional(StdEnum[ArpDirection](c.Int32ul)),  # 44
         "arp.range" / c.Optional(c.Int32ul),  # 48
         "arp.chord" / c.Optional(c.Int32ul),  # 52
         "arp.time" / c.Optional(c.Float32l),  # 56
         "arp.gate" / c.Optional(c.Float32l),  # 60
-        "arp.slide" / c.Optional(c.Flag),  # 61
+        "arp.slide" / c.Optional(OneByteBool),  # 61
         "_u3" / c.Optional(c.Bytes(1)),  # 62
-        "time.full_porta" / c.Optional(c.Flag),  # 63
-        "keyboard.add_root" / c.Optional(c.Flag),  # 64
+        "time.full_porta" / c.Optional(OneByteBool),  # 63
+        "keyboard.add_root" / c.Optional(OneByteBool),  # 64
         "time.gate" / c.Optional(c.Int16ul),  # 66
         "_u4" / c.Optional(c.Bytes(2)),  # 68
         "keyboard.key_region" / c.Optional(List2Tuple(c.Int32ul[2])),  # 76
         "_u5" / c.Optional(c.Bytes(4)),  # 80
-        "fx.normalize" / c.Optional(c.Flag),  # 81
-        "fx.inverted" / c.Optional(c.Flag),  # 82
+        "fx.normalize" / c.Optional(OneByteBool),  # 81
+        "fx.inverted" / c.Optional(OneByteBool),  # 82
         "_u6" / c.Optional(c.Bytes(1)),  # 83
         "content.declick_mode" / c.Optional(StdEnum[DeclickMode](c.Int8ul)),  # 84
         "fx.crossfade" / c.Optional(c.Int32ul),  # 88
@@ -282,7 +282,7 @@ class ParametersEvent(StructEventBase):
         "_u9" / c.Optional(c.Bytes(3)),  # 148
         "playback.start_offset" / c.Optional(c.Int32ul),  # 152
         "_u10" / c.Optional(c.Bytes(5)),  # 157
-        "fx.fix_trim" / c.Optional(c.Flag),  # 158 (FL 20.8.4 max)
+        "fx.fix_trim" / c.Optional(OneByteBool),  # 158 (FL 20.8.4 max)
         "_extra" / c.GreedyBytes,  # * 168 as of 20.9.1
     )
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 53b0988..7cf1282 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -22,7 +22,7 @@ from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cas
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, OneByteBool, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
     DATA,
@@ -280,7 +280,7 @@ class VSTPluginEvent(StructEventBase):
         "flags" / c.Optional(StdEnum[_VSTFlags](c.Int32ul)),  # 13
         "flags2" / c.Optional(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
         "_u2" / c.Optional(c.Bytes(5)),  # 22
-        "fast_idle" / c.Optional(c.Flag),  # 23
+        "fast_idle" / c.Optional(OneByteBool),  # 23
         "_extra" / c.GreedyBytes,
     ).compile()
 
-- 
2.43.0


From a969f4716d01cd1649bfdfe267157f9866d03514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:27 +0000
Subject: [PATCH 21/28] fix: properties of a polyphony or level adjusts event
 which is absent raised IndexError

---
 pyflp/_descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 22b5e34..1112615 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -74,7 +74,7 @@ class PropBase(abc.ABC, RWProperty[T]):
             if len(ins.events) > 1:  # Prevent ambiguous situations
                 raise LookupError("Event ID not specified")
 
-            return tuple(ins.events)[0]
+            return next(iter(ins.events), None)
 
         for id in self._ids:
             if id in ins.events:
-- 
2.43.0


From 8d3965cf4b1a3a13f60865ecd2b5a68143a892d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:48 +0000
Subject: [PATCH 22/28] fix: routes of an insert yielded its volume instead of
 the send volumes

---
 pyflp/mixer.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 34ac504..fdf3c05 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -525,16 +525,12 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
-        items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
-        for id, item in cast(_InsertItems, self._kw["params"]).own.items():
-            if id >= _MixerParamsID.RouteVolStart:
-                try:
-                    cond = next(items)
-                except StopIteration:
-                    continue
-                else:
-                    if cond:
-                        yield item["msg"]
+        params = cast(_InsertItems, self._kw["params"]).own
+        routing = cast(InsertRoutingEvent, self.events.first(InsertID.Routing))
+        for idx, routed in enumerate(routing):
+            item = params.get(_MixerParamsID.RouteVolStart + idx)
+            if routed and item is not None:
+                yield item["msg"]
 
     separator_shown = FlagProp(_InsertFlags.SeparatorShown, InsertID.Flags)
     """Whether separator is shown before the insert.
-- 
2.43.0


From 05240bd11d649ed6384852f316f50d040a1a78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:18 +0000
Subject: [PATCH 23/28] fix: models of different projects compared equal when
 they had as many events

---
 pyflp/_events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index d992bec..2a016ff 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -437,11 +437,11 @@ class EventTree:
         return any(ie.e.id == id for ie in self.lst)
 
     def __eq__(self, o: object) -> bool:
-        """Compares equality of internal lists."""
+        """Compares equality of internal lists and the events they hold."""
         if not isinstance(o, EventTree):
             return NotImplemented
 
-        return self.lst == o.lst
+        return self.lst == o.lst and list(self) == list(o)
 
     def __iadd__(self, *events: AnyEvent) -> EventTree:
         """Analogous to :meth:`list.extend`."""
-- 
2.43.0


From 414864b3295ca897a5351e7bae50f3276497efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:47 +0000
Subject: [PATCH 24/28] fix: assigning an option a VST plugin does not store
 was ignored or shifted its record

Options missing from a shorter record could not be read either.
---
 pyflp/plugin.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 7cf1282..3f40a69 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -475,9 +476,12 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
             if e["id"] == self._id:
                 if isinstance(e["data"], (str, bytes)):
                     e["data"] = value
+                elif e["data"][self._prop] is None:
+                    raise PropertyCannotBeSet(self._id)
                 else:
                     e["data"][self._prop] = value
-                break
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -488,7 +492,10 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         self._flag = flag
         self._inverted = inverted
 
-    def _get(self, value: Any) -> bool:
+    def _get(self, value: Any) -> bool | None:
+        if value[self._prop] is None:
+            return None
+
         retbool = self._flag in value[self._prop]
         return retbool if not self._inverted else not retbool
 
@@ -498,11 +505,14 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
 
         for e in event["events"]:
             if e["id"] == self._id:
+                if e["data"][self._prop] is None:
+                    raise PropertyCannotBeSet(self._id)
                 if value:
                     e["data"][self._prop] |= self._flag
                 else:
                     e["data"][self._prop] &= ~self._flag
-                break
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0


From 85129eff6866e97754e3aac5db27277297aacadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:47 +0000
Subject: [PATCH 25/28] fix: an assigned plugin shared its events with the
 place it came from

Changing one changed the other. Places without state took the name only,
and a plugin without a window was stored in part before failing.
---
 pyflp/plugin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 3f40a69..23ccd8d 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -15,6 +15,7 @@
 
 from __future__ import annotations
 
+import copy
 import enum
 import warnings
 from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cast, runtime_checkable
@@ -439,13 +440,16 @@ class PluginProp(RWProperty[AnyPlugin]):
                 return ptype(self._get_plugin_events(ins))
 
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
+        if PluginID.Data not in ins.events:
+            raise PropertyCannotBeSet(PluginID.Data)
+
         if isinstance(value, _IPlugin):
             setattr(ins, "internal_name", value.INTERNAL_NAME)
 
         for id in (PluginID.Data, PluginID.Wrapper):
             for ie in ins.events.lst:
-                if ie.e.id == id:
-                    ie.e = value.events.first(id)
+                if ie.e.id == id and id in value.events:
+                    ie.e = copy.deepcopy(value.events.first(id))
 
 
 class _NativePluginProp(StructProp[T]):
-- 
2.43.0


From 21fe9f18d1fc23e0c90e6cf7f7c3a4ea91692604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:47 +0000
Subject: [PATCH 26/28] fix: parts of a project without events kept positions
 of their own

An empty event list is falsy, so its children took themselves for the root.
---
 pyflp/_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 2a016ff..36ff185 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -430,7 +430,7 @@ class EventTree:
 
         while parent is not None and parent.parent is not None:
             parent = parent.parent
-        self.root = parent or self
+        self.root = self if parent is None else parent
 
     def __contains__(self, id: EventEnum) -> bool:
         """Whether the key :attr:`id` exists in the list."""
-- 
2.43.0


From bc7ec41a0a6f4d9c14078884047be9db6b33951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 27/28] fix: delay mod X and Y of a channel which stores none
 raised KeyError when read

---
 pyflp/channel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index b144642..97dae13 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -497,22 +497,30 @@ class Delay(EventModel, ModelReprMixin):
     """
 
     @property
-    def mod_x(self) -> int:
+    def mod_x(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[0]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[0]
 
     @mod_x.setter
     def mod_x(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (value, event.value[1])
 
     @property
-    def mod_y(self) -> int:
+    def mod_y(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[1]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[1]
 
     @mod_y.setter
     def mod_y(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (event.value[0], value)
 
-- 
2.43.0


From cb422f5fe20415494faf6e203bf650209e6b8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:02 +0000
Subject: [PATCH 28/28] fix: equaliser, routes and dock of an insert which does
 not store them raised when read

---
 pyflp/mixer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index fdf3c05..a6fbdb6 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -194,9 +194,12 @@ class _InsertEQBandProp(NamedPropMixin, RWProperty[int]):
     def __get__(self, ins: InsertEQBand, owner: Any = None) -> int | None:
         if owner is None:
             return NotImplemented
-        return ins._kw[self._prop]["msg"]
+        if self._prop in ins._kw:
+            return ins._kw[self._prop]["msg"]
 
     def __set__(self, ins: InsertEQBand, value: int) -> None:
+        if self._prop not in ins._kw:
+            raise PropertyCannotBeSet
         ins._kw[self._prop]["msg"] = value
 
 
@@ -459,6 +462,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         except KeyError:
             return None
 
+        if event["flags"] is None:
+            return None
+
         flags = _InsertFlags(event["flags"])
         if _InsertFlags.DockMiddle in flags:
             return InsertDock.Middle
@@ -525,6 +531,9 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
+        if InsertID.Routing not in self.events.ids:
+            return
+
         params = cast(_InsertItems, self._kw["params"]).own
         routing = cast(InsertRoutingEvent, self.events.first(InsertID.Routing))
         for idx, routed in enumerate(routing):
-- 
2.43.0

