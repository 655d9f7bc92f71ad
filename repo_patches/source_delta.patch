From 104f20da631276872824fa29562b81e5226a1d98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:11 +0000
Subject: [PATCH 01/62] fix: save the header's channel count instead of
 counting channels

Counting channels fails for presets and scores which have none, rewrites
the count of Patcher presets and ignores Project.channel_count.
---
 pyflp/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..562344d 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,8 +184,7 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
+    header = FLP_HEADER.pack(b"FLhd", 6, project.format, project.channel_count, project.ppq)
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From 4912a1dea7df3f9a1944e3f54f63e6d2536562b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:32 +0000
Subject: [PATCH 02/62] fix: don't lose event data which isn't understood

Booleans other than 0 or 1 (e.g. Licensed = 3), strings which aren't
terminated exactly once and bytes following the known fields of an event
were normalised or dropped on saving.
---
 pyflp/_events.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..51d87f8 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -21,6 +21,7 @@ from __future__ import annotations
 
 import abc
 import enum
+import io
 import warnings
 from collections.abc import Callable, Iterable, Iterator, Sequence
 from dataclasses import dataclass, field
@@ -122,7 +123,8 @@ class EventBase(Generic[T]):
 
         self.id = EventEnum(id)
         self._kwds = kwds
-        self.value = self.STRUCT.parse(data, **self._kwds)
+        self._raw = bytes(data)
+        self.value, self._extra = self._parse(self._raw)
 
     def __eq__(self, o: object) -> bool:
         if not isinstance(o, EventBase):
@@ -134,10 +136,24 @@ class EventBase(Generic[T]):
             raise TypeError(f"Cannot find inequality of a {type(o)} and {type(self)!r}")
         return self.id != o.id or self.value != cast(EventBase[T], o).value
 
+    def _parse(self, data: bytes) -> tuple[T, bytes]:
+        """Returns the parsed value and the bytes following it which weren't parsed."""
+        stream = io.BytesIO(data)
+        value = self.STRUCT.parse_stream(stream, **self._kwds)
+        return value, stream.read()
+
     def __bytes__(self) -> bytes:
         id = c.Byte.build(self.id)
         data = self.STRUCT.build(self.value, **self._kwds)
 
+        # What isn't understood (or normalised) by STRUCT mustn't get lost. Data
+        # of an unmodified event is stored back verbatim.
+        if data != self._raw:
+            if data == self.STRUCT.build(self._parse(self._raw)[0], **self._kwds):
+                data = self._raw
+            else:
+                data += self._extra
+
         if self.id < TEXT:
             return id + data
 
-- 
2.43.0


From 78325d107bffa16ea75a3656c0139516a51dcfbb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:59 +0000
Subject: [PATCH 03/62] fix: raise when a field of an event cannot be built

construct.Optional swallows every error while building and writes nothing
instead, i.e. a value which is out of range or of a wrong type shifted the
fields after it.
---
 pyflp/_construct.py  | 37 +++++++++++++++++++++++++++++++++++++
 pyflp/arrangement.py |  2 +-
 pyflp/channel.py     |  2 +-
 pyflp/controller.py  |  2 +-
 pyflp/mixer.py       |  2 +-
 pyflp/plugin.py      |  2 +-
 6 files changed, 42 insertions(+), 5 deletions(-)
 create mode 100644 pyflp/_construct.py

diff --git a/pyflp/_construct.py b/pyflp/_construct.py
new file mode 100644
index 0000000..78074c5
--- /dev/null
+++ b/pyflp/_construct.py
@@ -0,0 +1,37 @@
+# PyFLP - An FL Studio project file (.flp) parser
+# Copyright (C) 2022 demberto
+#
+# This program is free software: you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the Free
+# Software Foundation, either version 3 of the License, or (at your option)
+# any later version. This program is distributed in the hope that it will be
+# useful, but WITHOUT ANY WARRANTY; without even the implied warranty of
+# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the GNU General
+# Public License for more details. You should have received a copy of the
+# GNU General Public License along with this program. If not, see
+# <https://www.gnu.org/licenses/>.
+
+"""Exports everything from `construct` with a stricter :class:`Optional`."""
+
+from __future__ import annotations
+
+from typing import Any
+
+from construct import *  # noqa: F401,F403
+from construct import Pass, Select
+
+
+class Optional(Select):
+    """A field which might not be stored by certain versions of FL Studio.
+
+    :func:`construct.Optional` leaves out a value which cannot be built and that
+    shifts all the fields following it, hence corrupting them.
+    """
+
+    def __init__(self, subcon: Any) -> None:
+        super().__init__(subcon, Pass)
+
+    def _build(self, obj: Any, stream: Any, context: Any, path: Any) -> Any:
+        if obj is not None:
+            self.subcons[0]._build(obj, stream, context, path)
+        return obj
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..7ec60da 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -18,10 +18,10 @@ from __future__ import annotations
 import enum
 from typing import Any, Iterator, Literal, Optional, cast
 
-import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
+from pyflp import _construct as c
 from pyflp._adapters import FourByteBool, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..a22a9d4 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -19,9 +19,9 @@ import enum
 import pathlib
 from typing import Any, Iterator, Literal, Tuple, cast
 
-import construct as c
 import construct_typed as ct
 
+from pyflp import _construct as c
 from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..8ce90ac 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -18,8 +18,8 @@ from __future__ import annotations
 import enum
 from typing import cast
 
-import construct as c
 
+from pyflp import _construct as c
 from pyflp._events import DATA, EventEnum, StructEventBase
 from pyflp._models import EventModel, ModelReprMixin
 
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..cff42e9 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -20,10 +20,10 @@ import enum
 from collections import defaultdict
 from typing import Any, DefaultDict, Iterator, NamedTuple, cast
 
-import construct as c
 import construct_typed as ct
 from typing_extensions import NotRequired, TypedDict, Unpack
 
+from pyflp import _construct as c
 from pyflp._adapters import StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NamedPropMixin, ROProperty, RWProperty
 from pyflp._events import (
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..9ac5363 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -19,9 +19,9 @@ import enum
 import warnings
 from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cast, runtime_checkable
 
-import construct as c
 import construct_typed as ct
 
+from pyflp import _construct as c
 from pyflp._adapters import FourByteBool, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
-- 
2.43.0


From c57f0aafa44100eab712d69bd1371b9397cc5bfe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:31 +0000
Subject: [PATCH 04/62] fix: don't allow unsetting a stored field of an event

---
 pyflp/_events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 51d87f8..fb06ab0 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -359,6 +359,9 @@ class StructEventBase(EventBase[AnyContainer], AnyDict):
         if self[key] is None:
             raise PropertyCannotBeSet
 
+        if value is None:  # None is left out, that will shift the fields after it
+            raise TypeError(f"{key} cannot be unset")
+
         self.data[key] = value
 
 
-- 
2.43.0


From 5ae1e9eb2a727d574d0c2dc7ca2217bbaa3e2b8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:46 +0000
Subject: [PATCH 05/62] fix: round logarithmic values instead of truncating
 them

A value read from a file was off by one when stored back, due to floating
point errors.
---
 pyflp/_adapters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..5d3b898 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
@@ -80,7 +80,7 @@ class LogNormal(SimpleAdapter[List[int], float]):
         if not obj:  # log2(0.0) --> -inf ==> 0
             return [0, 0]
 
-        return [min(max(self.lo, int(2**12 * (math.log2(obj) + 15))), self.hi), 63]
+        return [min(max(self.lo, round(2**12 * (math.log2(obj) + 15))), self.hi), 63]
 
     def _decode(self, obj: list[int], *_: Any) -> float:
         """Returns a float representation of ``obj[0]`` between 0.0 to 1.0."""
-- 
2.43.0


From 8664a0e7931942aab5051ea31ccb03210a90143c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:54 +0000
Subject: [PATCH 06/62] fix: round Project.tempo to the nearest 0.001 BPM

int(16.001 * 1000) is 16000.
---
 pyflp/project.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..aabc696 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 
 import datetime
 import enum
-import math
 import pathlib
 from typing import Final, Literal, cast
 
@@ -471,14 +470,13 @@ class Project(EventModel):
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = round(value * 1000)
 
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
-            self.events.first(ProjectID._TempoFine).value = tempo_fine
+            self.events.first(ProjectID._TempoFine).value = round(value * 1000) % 1000
 
         if ProjectID._TempoCoarse in self.events.ids:
-            self.events.first(ProjectID._TempoCoarse).value = math.floor(value)
+            self.events.first(ProjectID._TempoCoarse).value = round(value * 1000) // 1000
 
     @property
     def time_spent(self) -> datetime.timedelta | None:
-- 
2.43.0


From 5c75b7be71a744b0139b54ad7f1c089fe9855267 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:02 +0000
Subject: [PATCH 07/62] fix: round Track.height and don't modify it when it
 isn't set

Heights got truncated (e.g. '115%' became '114%') and any change in the
track's properties truncated its height to a percent.
---
 pyflp/arrangement.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 7ec60da..f2bfbd3 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -120,21 +120,13 @@ class TrackSync(ct.EnumBase):
     Auto = 6
 
 
-class HeightAdapter(ct.Adapter[float, float, str, str]):
-    def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
-
-    def _encode(self, obj: str, *_: Any) -> float:
-        return int(obj[:-1]) / 100
-
-
 class TrackEvent(StructEventBase):
     STRUCT = c.Struct(
         "iid" / c.Optional(c.Int32ul),  # 4
         "color" / c.Optional(c.Int32ul),  # 8
         "icon" / c.Optional(c.Int32ul),  # 12
         "enabled" / c.Optional(c.Flag),  # 13
-        "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
+        "height" / c.Optional(c.Float32l),  # 17
         "locked_height" / c.Optional(c.Int32sl),  # 21
         "content_locked" / c.Optional(c.Flag),  # 22
         "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
@@ -241,6 +233,16 @@ class _TrackColorProp(StructProp[RGBA]):
         super()._set(ev_or_ins, int.from_bytes(bytes(value), "little"))  # type: ignore
 
 
+class _TrackHeightProp(StructProp[str]):
+    def _get(self, ev_or_ins: Any) -> str | None:
+        value = cast(Optional[float], super()._get(ev_or_ins))
+        if value is not None:
+            return f"{round(value * 100)}%"
+
+    def _set(self, ev_or_ins: Any, value: str) -> None:
+        super()._set(ev_or_ins, int(value[:-1]) / 100)  # type: ignore
+
+
 class _TrackKW(TypedDict):
     items: list[PLItemBase]
 
@@ -293,7 +295,7 @@ class Track(EventModel, ModelCollection[PLItemBase]):
     :guilabel:`&Group with above track`
     """
 
-    height = StructProp[str](TrackID.Data)
+    height = _TrackHeightProp(TrackID.Data)
     """Track height in FL's interface. Linear. :guilabel:`&Size`."""
 
     icon = StructProp[int](TrackID.Data)
-- 
2.43.0


From 042301e714018b30922e02c7d015dfd1b7edc473 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:09 +0000
Subject: [PATCH 08/62] fix: setting Note.key to a note name

A ValueError was raised for every note name.
---
 pyflp/pattern.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..0932441 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -156,9 +156,10 @@ class Note(ItemModel[NotesEvent]):
             self["key"] = value
         else:
             for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
+                octave = value[len(name) :]
+                if value.startswith(name) and octave.isdecimal() and int(octave) <= 10:
+                    self["key"] = int(octave) * 12 + i
+                    return
             raise ValueError(f"Invalid key name: {value}")
 
     length = StructProp[int]()
-- 
2.43.0


From 2feedcdc25096497a19c1215159696b1aa0b8480 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:15 +0000
Subject: [PATCH 09/62] fix: setting Reverb.mix added to the existing mix

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index a22a9d4..36729dc 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,7 +651,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From fd123f9ce9e18045b7cd0811787ba6e7e2d55976 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:22 +0000
Subject: [PATCH 10/62] fix: setting a VST plugin flag modified unrelated flags

---
 pyflp/plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 9ac5363..9e79454 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -496,9 +496,9 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         for e in event["events"]:
             if e["id"] == self._id:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
+                    e["data"][self._prop] &= ~self._flag
                 break
 
 
-- 
2.43.0


From 95876aaa7b6ef0e2752be263a12fd4ab0eae7c21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:29 +0000
Subject: [PATCH 11/62] fix: setting MIDI options / fast_idle of a VST plugin
 replaced the whole struct

---
 pyflp/plugin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 9e79454..d9d0102 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -473,7 +473,10 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                else:
+                    e["data"][self._prop] = value
                 break
 
 
-- 
2.43.0


From 637f8ca369f016f0c237c9a20db3775e96ba191e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:31 +0000
Subject: [PATCH 12/62] fix: setting a VST plugin property which isn't stored
 got ignored silently

---
 pyflp/plugin.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index d9d0102..0b6013f 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -478,6 +479,8 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
                 else:
                     e["data"][self._prop] = value
                 break
+        else:
+            raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -503,6 +506,8 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
                 else:
                     e["data"][self._prop] &= ~self._flag
                 break
+        else:
+            raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0


From 60527d47c70c5b16bb9306f27fdf51e3ca616a77 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:38 +0000
Subject: [PATCH 13/62] fix: accessing Slot.enabled and Slot.mix

An AttributeError was raised since a Slot isn't passed an _InsertItems.
---
 pyflp/mixer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index cff42e9..e530703 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -317,8 +317,8 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(self, events: EventTree, params: _InsertItems | None = None) -> None:
+        super().__init__(events, params=params or _InsertItems())
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
@@ -410,7 +410,7 @@ class Insert(EventModel, ModelCollection[Slot]):
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
         for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
-            yield Slot(ed, params=self._kw["params"].slots[idx])
+            yield Slot(ed, params=_InsertItems(own=self._kw["params"].slots[idx]))
 
     def __len__(self) -> int:
         try:
-- 
2.43.0


From e869a2b08726e5ced1cae74d754fe0ed1103f4c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:45 +0000
Subject: [PATCH 14/62] fix: handle inserts whose parameters aren't stored

Iterating over such an insert or accessing its pan, volume, EQ or routes
raised a KeyError.
---
 pyflp/mixer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index e530703..1cf16f1 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -194,9 +194,12 @@ class _InsertEQBandProp(NamedPropMixin, RWProperty[int]):
     def __get__(self, ins: InsertEQBand, owner: Any = None) -> int | None:
         if owner is None:
             return NotImplemented
-        return ins._kw[self._prop]["msg"]
+        if self._prop in ins._kw:
+            return ins._kw[self._prop]["msg"]
 
     def __set__(self, ins: InsertEQBand, value: int) -> None:
+        if self._prop not in ins._kw:
+            raise PropertyCannotBeSet
         ins._kw[self._prop]["msg"] = value
 
 
@@ -379,6 +382,7 @@ class Insert(EventModel, ModelCollection[Slot]):
     """
 
     def __init__(self, events: EventTree, **kw: Unpack[_InsertKW]) -> None:
+        kw.setdefault("params", _InsertItems())
         super().__init__(events, **kw)
 
     # TODO Add number of used slots
@@ -513,6 +517,9 @@ class Insert(EventModel, ModelCollection[Slot]):
 
         *New in FL Studio v4.0*.
         """
+        if InsertID.Routing not in self.events.ids:
+            return
+
         items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
         for id, item in cast(_InsertItems, self._kw["params"]).own.items():
             if id >= _MixerParamsID.RouteVolStart:
-- 
2.43.0


From c1fb7af38b21ed99a30734ef2b653b23fad8e700 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:51 +0000
Subject: [PATCH 15/62] fix: events of a plugin belong to the slot whose index
 follows them

Slots 1 and above returned the plugin and name of the slot next to them.
---
 pyflp/mixer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 1cf16f1..fe9d47a 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -35,6 +35,7 @@ from pyflp._events import (
     ColorEvent,
     EventEnum,
     EventTree,
+    IndexedEvent,
     I16Event,
     I32Event,
     ListEventBase,
@@ -413,8 +414,19 @@ class Insert(EventModel, ModelCollection[Slot]):
 
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
-        for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
-            yield Slot(ed, params=_InsertItems(own=self._kw["params"].slots[idx]))
+        idx = 0
+        el: list[IndexedEvent] = []
+
+        # SlotID.Index is the last event of a slot, it occurs after the plugin events
+        for ie in self.events.lst:
+            if ie.e.id in (*SlotID, *PluginID):
+                el.append(ie)
+
+            if ie.e.id == SlotID.Index:
+                params = _InsertItems(own=self._kw["params"].slots[idx])
+                yield Slot(EventTree(self.events, el), params=params)
+                idx += 1
+                el = []
 
     def __len__(self) -> int:
         try:
-- 
2.43.0


From 967ca0e6c5d596d3f9a3c7b65292cbe38d90e99a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:58 +0000
Subject: [PATCH 16/62] fix: Insert.output returned the output of the previous
 insert

InsertID.Output is the last event of an insert, not the first of the next.
---
 pyflp/mixer.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index fe9d47a..6091933 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -31,7 +31,6 @@ from pyflp._events import (
     DWORD,
     TEXT,
     WORD,
-    AnyEvent,
     ColorEvent,
     EventEnum,
     EventTree,
@@ -617,22 +616,27 @@ class Mixer(EventModel, ModelCollection[Insert]):
         raise ModelNotFound(i)
 
     def __iter__(self) -> Iterator[Insert]:
-        def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
-
-            if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
-
+        i = 0
+        el: list[IndexedEvent] = []
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
             params = cast(MixerParamsEvent, self.events.first(MixerID.Params)).items_
 
-        for i, ed in enumerate(self.events.subtrees(select, self.max_inserts)):
-            if i in params:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
-            else:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots)
+        for ie in self.events.lst:
+            if i == self.max_inserts:
+                return
+
+            if ie.e.id in (*InsertID, *PluginID, *SlotID):
+                el.append(ie)
+
+            if ie.e.id == InsertID.Output:  # The last event of an insert
+                ed = EventTree(self.events, el)
+                if i in params:
+                    yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
+                else:
+                    yield Insert(ed, iid=i - 1, max_slots=self.max_slots)
+                i += 1
+                el = []
 
     def __len__(self) -> int:
         """Returns the number of inserts present in the project.
-- 
2.43.0


From 535b83f74ef0820887a8190b7cd0573b6a7c3d10 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 17/62] fix: mixer slot plugins became a part of the last
 channel

The last channel returned the name, color, plugin etc. of the first used
slot in the mixer whenever it didn't have one of its own.
---
 pyflp/project.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyflp/project.py b/pyflp/project.py
index aabc696..0026f9e 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -208,8 +208,16 @@ class Project(EventModel):
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
 
+        inserts_began = False
+
         def select(e: AnyEvent) -> bool | None:
+            nonlocal inserts_began
+
             if e.id == InsertID.Flags:
+                inserts_began = True
+
+            # * Prevents accidentally passing on plugins from the mixer slots
+            if e.id in PluginID and inserts_began:
                 return False
 
             if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
-- 
2.43.0


From d61f2a418961fd43475abfc6877a80887a7d2ec9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:44 +0000
Subject: [PATCH 18/62] fix: iterating over a layer whose children occur after
 it

A KeyError was raised if the layer was obtained from a partial iteration,
for e.g. through ChannelRack.__getitem__.
---
 pyflp/channel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 36729dc..85552de 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1560,6 +1560,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
     def __iter__(self) -> Iterator[Channel]:
         """Yields all the channels found in the project."""
         ch_dict: dict[int, Channel] = {}
+        channels: list[Channel] = []
         groups = [DisplayGroup(et) for et in self.events.separate(DisplayGroupID.Name)]
 
         for et in self.events.divide(ChannelID.New, *ChannelID, *PluginID):
@@ -1584,7 +1585,9 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
             if iid is not None:
                 cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                channels.append(cur_ch)
+
+        yield from channels  # Children of a layer can occur after it
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From 10f118e12d40f14ad8b43fd85296b1f94fa207c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:50 +0000
Subject: [PATCH 19/62] fix: iterating over channels which aren't in a display
 group

Channel presets and versions before 3.4.0 don't store display groups.
---
 pyflp/channel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 85552de..0d00f22 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1199,7 +1199,7 @@ class Channel(EventModel):
     """![](https://bit.ly/3sbN8KU)"""
 
     @property
-    def group(self) -> DisplayGroup:  # TODO Setter
+    def group(self) -> DisplayGroup | None:  # TODO Setter
         """Display group / filter under which this channel is grouped."""
         return self._kw["group"]
 
@@ -1566,7 +1566,10 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
         for et in self.events.divide(ChannelID.New, *ChannelID, *PluginID):
             iid = et.first(ChannelID.New).value
             typ = et.first(ChannelID.Type).value
-            groupnum = et.first(ChannelID.GroupNum).value
+            try:
+                group = groups[et.first(ChannelID.GroupNum).value]
+            except (IndexError, KeyError):  # Presets and FL Studio < v3.4.0
+                group = None
 
             ct = Channel  # prevent type error and logic failure below
             if typ == ChannelType.Automation:
@@ -1584,7 +1587,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
                     ct = Sampler
 
             if iid is not None:
-                cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
+                cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=group)
                 channels.append(cur_ch)
 
         yield from channels  # Children of a layer can occur after it
-- 
2.43.0


From e51e615d537fc9dbe705deb287315cdb5fbf79d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 20/62] fix: support slices with omitted, negative bounds and
 steps

---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..a2a68ff 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return [model for idx, model in enumerate(self) if idx in range(i.start, i.stop)]
+            return list(self)[i]
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From 157660b42c00a5292428febcefbaa43278e586e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:01 +0000
Subject: [PATCH 21/62] fix: RemoteController.parameter was always 1 and
 controls_vst False

---
 pyflp/controller.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyflp/controller.py b/pyflp/controller.py
index 8ce90ac..023d43e 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -57,10 +57,8 @@ class RemoteController(EventModel, ModelReprMixin):
     @property
     def parameter(self) -> int | None:
         """The ID of the plugin parameter to which controller is linked to."""
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return value & 0x7FFF
 
     @property
@@ -69,8 +67,6 @@ class RemoteController(EventModel, ModelReprMixin):
 
         None when linked to a plugin parameter on an insert slot.
         """
-        if (
-            value := cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
-            is not None
-        ):
+        value = cast(StructEventBase, self.events.first(ControllerID.Remote))["parameter_data"]
+        if value is not None:
             return (value & 0x8000) > 0
-- 
2.43.0


From 84587681f38521b60f2831fba94dc831da195354 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:08 +0000
Subject: [PATCH 22/62] fix: appending and inserting multiple events in an
 EventTree

- append() raised an IndexError for a non-empty tree.
- Root indexes of an inserted event went out of sync in different trees,
  due to which later insertions / removals affected other events.
- += rebound the tree to None.
---
 pyflp/_events.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index fb06ab0..d9c5de2 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -462,10 +462,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, events: Iterable[AnyEvent]) -> EventTree:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
@@ -535,7 +536,12 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if not len(self):
+            rootidx = 0
+        elif pos == len(self):
+            rootidx = self.lst[-1].r + 1
+        else:
+            rootidx = self.lst[pos].r
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
@@ -543,7 +549,8 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        ie = IndexedEvent(rootidx, e)  # Shared, so that its root index stays the same
+        self._recursive(lambda et: et.lst.add(ie))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From 623d03479c2a29b388f7847de7163fd524a07d88 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:16 +0000
Subject: [PATCH 23/62] fix: compare the events of an EventTree as well, not
 just their indexes

Any two projects with the same number of events were considered equal.
---
 pyflp/_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index d9c5de2..0a3a227 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -460,7 +460,7 @@ class EventTree:
         if not isinstance(o, EventTree):
             return NotImplemented
 
-        return self.lst == o.lst
+        return self.lst == o.lst and list(self) == list(o)
 
     def __iadd__(self, events: Iterable[AnyEvent]) -> EventTree:
         """Analogous to :meth:`list.extend`."""
-- 
2.43.0


From 2792851d721028d8d3a68f04db2c2ab52b51560a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:24 +0000
Subject: [PATCH 24/62] fix: yield the last arrangement when it isn't followed
 by the current one

len(arrangements) was one more than the number of arrangements yielded.
---
 pyflp/_events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 0a3a227..649794f 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -617,6 +617,9 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
+        if repeat and el:
+            yield EventTree(self, el)  # Yield the last one
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
-- 
2.43.0


From 399eebdaeda0f8db2b8a111afceb49f930aaa24a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:30 +0000
Subject: [PATCH 25/62] fix: reject a last event which is shorter than its
 length

---
 pyflp/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 562344d..c8e22ae 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -54,7 +54,7 @@ from pyflp._events import (
     UnicodeEvent,
     UnknownDataEvent,
 )
-from pyflp.exceptions import HeaderCorrupted, VersionNotDetected
+from pyflp.exceptions import HeaderCorrupted, InvalidEventChunkSize, VersionNotDetected
 from pyflp.plugin import PluginID, get_event_by_internal_name
 from pyflp.project import VALID_PPQS, FileFormat, Project, ProjectID
 
@@ -131,6 +131,8 @@ def parse(file: pathlib.Path | str) -> Project:
         else:
             size = c.VarInt.parse_stream(stream)
             value = stream.read(size)
+            if len(value) != size:
+                raise InvalidEventChunkSize(size, len(value))
 
         if id == ProjectID.FLVersion:
             parts = value.decode("ascii").rstrip("\0").split(".")
-- 
2.43.0


From 7ab28af418280014e7e3141232fdfe2394181a2a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:36 +0000
Subject: [PATCH 26/62] fix: parsing of playlists with a multiple of 15 items

The size of 15 playlist items stored by versions before FL Studio 21 is a
multiple of 60 as well, due to which they were parsed as 8 newer ones.
Every item has the same pattern base.
---
 pyflp/arrangement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index f2bfbd3..eb76470 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -87,7 +87,10 @@ class PlaylistEvent(ListEventBase):
     SIZES = [32, 60]
 
     def __init__(self, id: EventEnum, data: bytes) -> None:
-        super().__init__(id, data, new=not len(data) % 60)
+        new = not len(data) % 60
+        if new and not len(data) % 32:  # e.g. 8 new or 15 old items
+            new = any(data[i : i + 2] != data[4:6] for i in range(4, len(data), 32))
+        super().__init__(id, data, new=new)
 
 
 @enum.unique
-- 
2.43.0


From b8299af343c34463100e7594bd1596b88ef097ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:42 +0000
Subject: [PATCH 27/62] fix: return the default when the only event of a model
 isn't found

IndexError was raised by properties of Polyphony, Arp, LevelAdjusts, etc.
---
 pyflp/_descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 22b5e34..1112615 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -74,7 +74,7 @@ class PropBase(abc.ABC, RWProperty[T]):
             if len(ins.events) > 1:  # Prevent ambiguous situations
                 raise LookupError("Event ID not specified")
 
-            return tuple(ins.events)[0]
+            return next(iter(ins.events), None)
 
         for id in self._ids:
             if id in ins.events:
-- 
2.43.0


From ec7bb87f62d67e7f725bd53738ec9b88a6547267 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:40 +0000
Subject: [PATCH 28/62] fix: wrapper flags are 4 bytes wide

_WrapperFlags._DirectX is the 17th bit, it always returned False and the
project couldn't be saved after setting it.
---
 pyflp/plugin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 0b6013f..c946ad8 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -213,8 +213,7 @@ class WrapperPage(ct.EnumBase):
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
-        "_u2" / c.Optional(c.Bytes(2)),  # 20
+        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int32ul)),  # 20
         "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
         "_u3" / c.Optional(c.Bytes(23)),  # 44
         "width" / c.Optional(c.Int32ul),  # 48
-- 
2.43.0


From 4d386d6aaaaff506978e0ad2fd937225e35e0420 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:47 +0000
Subject: [PATCH 29/62] fix: Delay.mod_x and mod_y raised a KeyError when not
 stored

---
 pyflp/channel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 0d00f22..e0ca4e0 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -497,22 +497,30 @@ class Delay(EventModel, ModelReprMixin):
     """
 
     @property
-    def mod_x(self) -> int:
+    def mod_x(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[0]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[0]
 
     @mod_x.setter
     def mod_x(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (value, event.value[1])
 
     @property
-    def mod_y(self) -> int:
+    def mod_y(self) -> int | None:
         """Min = 0. Max = 256. Default = 128."""
-        return self.events.first(ChannelID.DelayModXY).value[1]
+        if ChannelID.DelayModXY in self.events.ids:
+            return self.events.first(ChannelID.DelayModXY).value[1]
 
     @mod_y.setter
     def mod_y(self, value: int) -> None:
+        if ChannelID.DelayModXY not in self.events.ids:
+            raise PropertyCannotBeSet(ChannelID.DelayModXY)
+
         event = self.events.first(ChannelID.DelayModXY)
         event.value = (event.value[0], value)
 
-- 
2.43.0


From a6d4753c5356f5c42c23ed27af2f3be58b28b7e4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:25 +0000
Subject: [PATCH 30/62] fix: bipolar parameters of Fruity Balance and Stereo
 Enhancer are signed

---
 pyflp/plugin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index c946ad8..df36775 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -97,7 +97,7 @@ class FruitKickEvent(StructEventBase):
 
 
 class FruityBalanceEvent(StructEventBase):
-    STRUCT = c.Struct("pan" / c.Int32ul, "volume" / c.Int32ul).compile()
+    STRUCT = c.Struct("pan" / c.Int32sl, "volume" / c.Int32ul).compile()
 
 
 class FruityBloodOverdriveEvent(StructEventBase):
@@ -164,8 +164,8 @@ class FruityStereoEnhancerEvent(StructEventBase):
     STRUCT = c.Struct(
         "pan" / c.Int32sl,
         "volume" / c.Int32ul,
-        "stereo_separation" / c.Int32ul,
-        "phase_offset" / c.Int32ul,
+        "stereo_separation" / c.Int32sl,
+        "phase_offset" / c.Int32sl,
         "effect_position" / c.Enum(c.Int32ul, pre=0, post=1),
         "phase_inversion" / c.Enum(c.Int32ul, none=0, left=1, right=2),
     ).compile()
-- 
2.43.0


From ea6bfc036ee37d99312ae41d3dacf8e0c16998f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:24 +0000
Subject: [PATCH 31/62] fix: comparing a version having a build with one that
 doesn't

---
 pyflp/types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..473540c 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -14,6 +14,7 @@
 from __future__ import annotations
 
 import enum
+import functools
 from collections import UserDict, UserList
 from dataclasses import dataclass
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
@@ -29,13 +30,23 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@functools.total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
     patch: int = 0
     build: int | None = None
 
+    def __lt__(self, o: object) -> bool:
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+
+        # A version without a build precedes all of its builds
+        return (self.major, self.minor, self.patch, -1 if self.build is None else self.build) < (
+            (o.major, o.minor, o.patch, -1 if o.build is None else o.build)
+        )
+
     def __str__(self) -> str:
         version = f"{self.major}.{self.minor}.{self.patch}"
         if self.build is not None:
-- 
2.43.0


From 9df75ae2b924ee8bc5667b2646dd2857e9681544 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:50 +0000
Subject: [PATCH 32/62] fix: accessing any property of Arp raised a KeyError

---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index e0ca4e0..244291b 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](ChannelID.Parameters, prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](ChannelID.Parameters, prop="arp.direction")
+    gate = StructProp[float](ChannelID.Parameters, prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](ChannelID.Parameters, prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](ChannelID.Parameters, prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](ChannelID.Parameters, prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](ChannelID.Parameters, prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From 08792c188f3a9fb98b61ee406a15b6eab307f8ad Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:58 +0000
Subject: [PATCH 33/62] fix: handle VST options which aren't stored by the
 wrapper

---
 pyflp/plugin.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index df36775..72b44b4 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -475,6 +475,8 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
             if e["id"] == self._id:
                 if isinstance(e["data"], (str, bytes)):
                     e["data"] = value
+                elif e["data"][self._prop] is None:
+                    raise PropertyCannotBeSet(self._id)
                 else:
                     e["data"][self._prop] = value
                 break
@@ -490,7 +492,10 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         self._flag = flag
         self._inverted = inverted
 
-    def _get(self, value: Any) -> bool:
+    def _get(self, value: Any) -> bool | None:
+        if value[self._prop] is None:
+            return None
+
         retbool = self._flag in value[self._prop]
         return retbool if not self._inverted else not retbool
 
@@ -500,6 +505,9 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
 
         for e in event["events"]:
             if e["id"] == self._id:
+                if e["data"][self._prop] is None:
+                    raise PropertyCannotBeSet(self._id)
+
                 if value:
                     e["data"][self._prop] |= self._flag
                 else:
-- 
2.43.0


From 48ede1dc15df99467437c4929be4e64a3618f5a7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 34/62] fix: setting a flag which isn't stored raised a
 TypeError

---
 pyflp/_descriptors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_descriptors.py b/pyflp/_descriptors.py
index 1112615..e93f3c7 100644
--- a/pyflp/_descriptors.py
+++ b/pyflp/_descriptors.py
@@ -158,6 +158,9 @@ class FlagProp(PropBase[bool]):
             value = not value
 
         if isinstance(ev_or_ins, (ItemModel, StructEventBase)):
+            if ev_or_ins[self._prop] is None:
+                raise PropertyCannotBeSet(*self._ids)
+
             if value:
                 ev_or_ins[self._prop] |= self._flag
             else:
-- 
2.43.0


From ce36dbe6de734801bdb5d94268711e63396826ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:13 +0000
Subject: [PATCH 35/62] fix: reading Insert.dock when the flags aren't stored

---
 pyflp/mixer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 6091933..9f6b5a3 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -462,6 +462,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         except KeyError:
             return None
 
+        if event["flags"] is None:
+            return None
+
         flags = _InsertFlags(event["flags"])
         if _InsertFlags.DockMiddle in flags:
             return InsertDock.Middle
-- 
2.43.0


From 1b33fc781ba4da1ce48f304facbc7590cde41377 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:29 +0000
Subject: [PATCH 36/62] fix: don't yield a channel or track when there isn't
 any

---
 pyflp/_events.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 649794f..2d278a9 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -511,7 +511,9 @@ class EventTree:
 
             if ie.e.id in ids:
                 el.append(ie)
-        yield EventTree(self, el)  # Yield the last one
+
+        if not first:
+            yield EventTree(self, el)  # Yield the last one
 
     def first(self, id: EventEnum) -> AnyEvent:
         """Returns the first event with :attr:`id`.
-- 
2.43.0


From e9656cfde669b14251dbc858998b616eb28e7f8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:04 +0000
Subject: [PATCH 37/62] fix: compare what inserts, slots and tracks get from
 elsewhere

Mixer parameters and playlist items aren't a part of their events, so
objects with different ones were considered equal.
---
 pyflp/arrangement.py | 5 +++++
 pyflp/mixer.py       | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index eb76470..d723bd7 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -259,6 +259,11 @@ class Track(EventModel, ModelCollection[PLItemBase]):
     def __init__(self, events: EventTree, **kw: Unpack[_TrackKW]) -> None:
         super().__init__(events, **kw)
 
+    def __eq__(self, o: object) -> bool:
+        if not super().__eq__(o):
+            return False
+        return [item._item for item in cast(Track, o)] == [item._item for item in self]
+
     def __getitem__(self, index: int | slice | str):
         if isinstance(index, str):
             return NotImplemented
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 9f6b5a3..4a1e7dd 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -323,6 +323,9 @@ class Slot(EventModel):
     def __init__(self, events: EventTree, params: _InsertItems | None = None) -> None:
         super().__init__(events, params=params or _InsertItems())
 
+    def __eq__(self, o: object) -> bool:
+        return super().__eq__(o) and cast(Slot, o)._kw["params"] == self._kw["params"]
+
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
 
@@ -385,6 +388,9 @@ class Insert(EventModel, ModelCollection[Slot]):
         kw.setdefault("params", _InsertItems())
         super().__init__(events, **kw)
 
+    def __eq__(self, o: object) -> bool:
+        return super().__eq__(o) and cast(Insert, o)._kw["params"] == self._kw["params"]
+
     # TODO Add number of used slots
     def __repr__(self) -> str:
         return f"Insert(name={self.name!r}, iid={self.iid})"
@@ -422,7 +428,7 @@ class Insert(EventModel, ModelCollection[Slot]):
                 el.append(ie)
 
             if ie.e.id == SlotID.Index:
-                params = _InsertItems(own=self._kw["params"].slots[idx])
+                params = _InsertItems(own=self._kw["params"].slots.get(idx, {}))
                 yield Slot(EventTree(self.events, el), params=params)
                 idx += 1
                 el = []
-- 
2.43.0


From c91dbeb3302349c0b75be48fbd92538e818b032c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:11 +0000
Subject: [PATCH 38/62] fix: don't share a plugin's events between its hosts

After assigning a plugin, editing it in either place modified both.
---
 pyflp/plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 72b44b4..bff7f03 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -15,6 +15,7 @@
 
 from __future__ import annotations
 
+import copy
 import enum
 import warnings
 from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cast, runtime_checkable
@@ -444,7 +445,7 @@ class PluginProp(RWProperty[AnyPlugin]):
         for id in (PluginID.Data, PluginID.Wrapper):
             for ie in ins.events.lst:
                 if ie.e.id == id:
-                    ie.e = value.events.first(id)
+                    ie.e = copy.deepcopy(value.events.first(id))
 
 
 class _NativePluginProp(StructProp[T]):
-- 
2.43.0


From 5d4014dc7ea6ef3031da2a3d6dbd686a5048f730 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:25 +0000
Subject: [PATCH 39/62] fix: compare the header of a project as well

---
 pyflp/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/project.py b/pyflp/project.py
index 0026f9e..646beea 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -146,6 +146,9 @@ class Project(EventModel):
     def __init__(self, events: EventTree, **kw: Unpack[_ProjectKW]) -> None:
         super().__init__(events, **kw)
 
+    def __eq__(self, o: object) -> bool:
+        return super().__eq__(o) and cast(Project, o)._kw == self._kw
+
     def __repr__(self) -> str:
         return f"<Project(format={self.format!r}, version={self.version!r}>"
 
-- 
2.43.0


From 19518410ad4490c06bae06e2c2e244af530f2f71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 40/62] fix: compare events having a NaN or a float which isn't
 rounded yet

---
 pyflp/_events.py     | 7 +++++--
 pyflp/arrangement.py | 7 ++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 2d278a9..59177da 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -129,12 +129,15 @@ class EventBase(Generic[T]):
     def __eq__(self, o: object) -> bool:
         if not isinstance(o, EventBase):
             raise TypeError(f"Cannot find equality of an {type(o)} and {type(self)!r}")
-        return self.id == o.id and self.value == cast(EventBase[T], o).value
+        if self.id != o.id:
+            return False
+        # A NaN isn't equal to itself and floats get rounded only when saved
+        return self.value == cast(EventBase[T], o).value or bytes(self) == bytes(o)
 
     def __ne__(self, o: object) -> bool:
         if not isinstance(o, EventBase):
             raise TypeError(f"Cannot find inequality of a {type(o)} and {type(self)!r}")
-        return self.id != o.id or self.value != cast(EventBase[T], o).value
+        return not self == o
 
     def _parse(self, data: bytes) -> tuple[T, bytes]:
         """Returns the parsed value and the bytes following it which weren't parsed."""
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index d723bd7..6b458c4 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -260,9 +260,10 @@ class Track(EventModel, ModelCollection[PLItemBase]):
         super().__init__(events, **kw)
 
     def __eq__(self, o: object) -> bool:
-        if not super().__eq__(o):
-            return False
-        return [item._item for item in cast(Track, o)] == [item._item for item in self]
+        def build(track: Track) -> list[bytes]:
+            return [i._parent.STRUCT.subcon.build(i._item, **i._parent._kwds) for i in track]
+
+        return super().__eq__(o) and build(cast(Track, o)) == build(self)
 
     def __getitem__(self, index: int | slice | str):
         if isinstance(index, str):
-- 
2.43.0


From eb1ed5e3eed9e3de3bbbab4fbc1267402853ed6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:32 +0000
Subject: [PATCH 41/62] fix: a clip obtained before didn't show the channel or
 pattern assigned to it

---
 pyflp/arrangement.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6b458c4..1ca69d0 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -202,11 +202,10 @@ class ChannelPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def channel(self) -> Channel:
-        return self._kw["channel"]
+        return self._kw["channels"][self["item_index"]]
 
     @channel.setter
     def channel(self, channel: Channel) -> None:
-        self._kw["channel"] = channel
         self["item_index"] = channel.iid
 
 
@@ -218,11 +217,10 @@ class PatternPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def pattern(self) -> Pattern:
-        return self._kw["pattern"]
+        return self._kw["patterns"][self["item_index"] - self["pattern_base"]]
 
     @pattern.setter
     def pattern(self, pattern: Pattern) -> None:
-        self._kw["pattern"] = pattern
         self["item_index"] = pattern.iid + self["pattern_base"]
 
 
@@ -402,11 +400,9 @@ class Arrangement(EventModel):
                     continue
 
                 if item["item_index"] <= item["pattern_base"]:
-                    iid = item["item_index"]
-                    items.append(ChannelPLItem(item, i, pl_evt, channel=channels[iid]))
+                    items.append(ChannelPLItem(item, i, pl_evt, channels=channels))
                 else:
-                    num = item["item_index"] - item["pattern_base"]
-                    items.append(PatternPLItem(item, i, pl_evt, pattern=patterns[num]))
+                    items.append(PatternPLItem(item, i, pl_evt, patterns=patterns))
             yield Track(ed, items=items)
 
 
-- 
2.43.0


From 4bc2d4db425742ca7143b4b7029548f7a2231a3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:40 +0000
Subject: [PATCH 42/62] fix: a too high or negative Reverb.mix modified
 Reverb.type

---
 pyflp/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 244291b..566cf32 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -659,6 +659,9 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
+        if not 0 <= value < ReverbType.B:
+            raise ValueError(f"Invalid mix {value}; it would modify the type")
+
         self.events.first(ChannelID.Reverb).value = self.type + value
 
 
-- 
2.43.0


From 57c2874994c426026dc0a142f3c07f2939e73c23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:32 +0000
Subject: [PATCH 43/62] fix: slicing a collection which is empty

---
 pyflp/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index a2a68ff..939cc6b 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -111,7 +111,7 @@ def supports_slice(func: Callable[[ModelCollection[MT_co], str | int | slice], M
     @functools.wraps(func)
     def wrapper(self: Any, i: Any) -> MT_co | Sequence[MT_co]:
         if isinstance(i, slice):
-            return list(self)[i]
+            return [model for model in self][i]  # list() needs __len__ which can raise
         return func(self, i)
 
     return wrapper
-- 
2.43.0


From 6c8613680e340b83c44e41354281d47b2c8c8fe6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:39 +0000
Subject: [PATCH 44/62] fix: reject a VST plugin text or state of the wrong
 type

---
 pyflp/plugin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index bff7f03..cfae66d 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -475,6 +475,8 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
         for e in event["events"]:
             if e["id"] == self._id:
                 if isinstance(e["data"], (str, bytes)):
+                    if not isinstance(value, type(e["data"])):
+                        raise TypeError(f"Expected {type(e['data'])}; got {type(value)}")
                     e["data"] = value
                 elif e["data"][self._prop] is None:
                     raise PropertyCannotBeSet(self._id)
-- 
2.43.0


From 337af8cc944592dadea6b3ce51cd1843e48531d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:15 +0000
Subject: [PATCH 45/62] fix: don't allow unsetting a stored option of a VST
 plugin

---
 pyflp/plugin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index cfae66d..83dda24 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -480,6 +480,8 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
                     e["data"] = value
                 elif e["data"][self._prop] is None:
                     raise PropertyCannotBeSet(self._id)
+                elif value is None:  # None is left out, that will shift the fields after it
+                    raise TypeError(f"{self._prop} cannot be unset")
                 else:
                     e["data"][self._prop] = value
                 break
-- 
2.43.0


From 81c109d109e9e799d062f211cefba324abf9358f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 46/62] fix: Channel.pan and volume couldn't be set again after
 an invalid value

---
 pyflp/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 566cf32..697f4bb 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1259,7 +1259,7 @@ class Channel(EventModel):
 
     @pan.setter
     def pan(self, value: int) -> None:
-        if self.pan is None:
+        if self.events.ids.isdisjoint((ChannelID.Levels, ChannelID._PanWord, ChannelID._PanByte)):
             raise PropertyCannotBeSet
 
         if ChannelID.Levels in self.events.ids:
@@ -1287,7 +1287,7 @@ class Channel(EventModel):
 
     @volume.setter
     def volume(self, value: int) -> None:
-        if self.volume is None:
+        if self.events.ids.isdisjoint((ChannelID.Levels, ChannelID._VolWord, ChannelID._VolByte)):
             raise PropertyCannotBeSet
 
         if ChannelID.Levels in self.events.ids:
-- 
2.43.0


From 688533234038186ad5ffcbf7091a445848ff2a45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:48 +0000
Subject: [PATCH 47/62] fix: parsing of native plugin data which is shorter
 than expected

A project wasn't parsed at all when a plugin had stored less data than what the
latest version of it does, unlike with all other events whose size may vary.
---
 pyflp/plugin.py | 88 ++++++++++++++++++++++++-------------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 83dda24..d4daeaa 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -78,56 +78,56 @@ class _WrapperFlags(enum.IntFlag):
 class BooBassEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.If(c.this._.len == 16, c.Bytes(4)),
-        "bass" / c.Int32ul,
-        "mid" / c.Int32ul,
-        "high" / c.Int32ul,
+        "bass" / c.Optional(c.Int32ul),
+        "mid" / c.Optional(c.Int32ul),
+        "high" / c.Optional(c.Int32ul),
     ).compile()
 
 
 class FruitKickEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Bytes(4),
-        "max_freq" / c.Int32sl,
-        "min_freq" / c.Int32sl,
-        "freq_decay" / c.Int32ul,
-        "amp_decay" / c.Int32ul,
-        "click" / c.Int32ul,
-        "distortion" / c.Int32ul,
-        "_u2" / c.Bytes(4),
+        "_u1" / c.Optional(c.Bytes(4)),
+        "max_freq" / c.Optional(c.Int32sl),
+        "min_freq" / c.Optional(c.Int32sl),
+        "freq_decay" / c.Optional(c.Int32ul),
+        "amp_decay" / c.Optional(c.Int32ul),
+        "click" / c.Optional(c.Int32ul),
+        "distortion" / c.Optional(c.Int32ul),
+        "_u2" / c.Optional(c.Bytes(4)),
     ).compile()
 
 
 class FruityBalanceEvent(StructEventBase):
-    STRUCT = c.Struct("pan" / c.Int32sl, "volume" / c.Int32ul).compile()
+    STRUCT = c.Struct("pan" / c.Optional(c.Int32sl), "volume" / c.Optional(c.Int32ul)).compile()
 
 
 class FruityBloodOverdriveEvent(StructEventBase):
     STRUCT = c.Struct(
         "plugin_marker" / c.If(c.this._.len == 36, c.Bytes(4)),  # redesigned native plugin marker
-        "pre_band" / c.Int32ul,
-        "color" / c.Int32ul,
-        "pre_amp" / c.Int32ul,
-        "x100" / FourByteBool,
-        "post_filter" / c.Int32ul,
-        "post_gain" / c.Int32ul,
-        "_u1" / c.Bytes(4),
-        "_u2" / c.Bytes(4),
+        "pre_band" / c.Optional(c.Int32ul),
+        "color" / c.Optional(c.Int32ul),
+        "pre_amp" / c.Optional(c.Int32ul),
+        "x100" / c.Optional(FourByteBool),
+        "post_filter" / c.Optional(c.Int32ul),
+        "post_gain" / c.Optional(c.Int32ul),
+        "_u1" / c.Optional(c.Bytes(4)),
+        "_u2" / c.Optional(c.Bytes(4)),
     ).compile()
 
 
 class FruityCenterEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.If(c.this._.len == 8, c.Bytes(4)), "enabled" / FourByteBool
+        "_u1" / c.If(c.this._.len == 8, c.Bytes(4)), "enabled" / c.Optional(FourByteBool)
     ).compile()
 
 
 class FruityFastDistEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pre" / c.Int32ul,
-        "threshold" / c.Int32ul,
-        "kind" / c.Enum(c.Int32ul, A=0, B=1),
-        "mix" / c.Int32ul,
-        "post" / c.Int32ul,
+        "pre" / c.Optional(c.Int32ul),
+        "threshold" / c.Optional(c.Int32ul),
+        "kind" / c.Optional(c.Enum(c.Int32ul, A=0, B=1)),
+        "mix" / c.Optional(c.Int32ul),
+        "post" / c.Optional(c.Int32ul),
     ).compile()
 
 
@@ -150,43 +150,43 @@ class FruityNotebook2Event(StructEventBase):
 
 class FruitySendEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Int32sl,
-        "dry" / c.Int32ul,
-        "volume" / c.Int32ul,
-        "send_to" / c.Int32sl,
+        "pan" / c.Optional(c.Int32sl),
+        "dry" / c.Optional(c.Int32ul),
+        "volume" / c.Optional(c.Int32ul),
+        "send_to" / c.Optional(c.Int32sl),
     ).compile()
 
 
 class FruitySoftClipperEvent(StructEventBase):
-    STRUCT = c.Struct("threshold" / c.Int32ul, "post" / c.Int32ul).compile()
+    STRUCT = c.Struct("threshold" / c.Optional(c.Int32ul), "post" / c.Optional(c.Int32ul)).compile()
 
 
 class FruityStereoEnhancerEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Int32sl,
-        "volume" / c.Int32ul,
-        "stereo_separation" / c.Int32sl,
-        "phase_offset" / c.Int32sl,
-        "effect_position" / c.Enum(c.Int32ul, pre=0, post=1),
-        "phase_inversion" / c.Enum(c.Int32ul, none=0, left=1, right=2),
+        "pan" / c.Optional(c.Int32sl),
+        "volume" / c.Optional(c.Int32ul),
+        "stereo_separation" / c.Optional(c.Int32sl),
+        "phase_offset" / c.Optional(c.Int32sl),
+        "effect_position" / c.Optional(c.Enum(c.Int32ul, pre=0, post=1)),
+        "phase_inversion" / c.Optional(c.Enum(c.Int32ul, none=0, left=1, right=2)),
     ).compile()
 
 
 class PluckedEvent(StructEventBase):
     STRUCT = c.Struct(
-        "decay" / c.Int32ul,
-        "color" / c.Int32ul,
-        "normalize" / FourByteBool,
-        "gate" / FourByteBool,
-        "widen" / FourByteBool,
+        "decay" / c.Optional(c.Int32ul),
+        "color" / c.Optional(c.Int32ul),
+        "normalize" / c.Optional(FourByteBool),
+        "gate" / c.Optional(FourByteBool),
+        "widen" / c.Optional(FourByteBool),
     ).compile()
 
 
 class SoundgoodizerEvent(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.If(c.this._.len == 12, c.Bytes(4)),
-        "mode" / c.Enum(c.Int32ul, A=0, B=1, C=2, D=3),
-        "amount" / c.Int32ul,
+        "mode" / c.Optional(c.Enum(c.Int32ul, A=0, B=1, C=2, D=3)),
+        "amount" / c.Optional(c.Int32ul),
     ).compile()
 
 
-- 
2.43.0


From 2745e8ef6977730cef921e44decef751cb4b03d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:01 +0000
Subject: [PATCH 48/62] fix: channels with a negative group number aren't in
 the last group

A group number of -1 was used as an index from the end of the list of
display groups.
---
 pyflp/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 697f4bb..0e1bc6a 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1578,7 +1578,8 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
             iid = et.first(ChannelID.New).value
             typ = et.first(ChannelID.Type).value
             try:
-                group = groups[et.first(ChannelID.GroupNum).value]
+                groupnum = et.first(ChannelID.GroupNum).value
+                group = groups[groupnum] if groupnum >= 0 else None
             except (IndexError, KeyError):  # Presets and FL Studio < v3.4.0
                 group = None
 
-- 
2.43.0


From 77287bd95e262a022fe7b196f5f8b8869a3bb167 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:12 +0000
Subject: [PATCH 49/62] fix: licensees with characters which cannot be stored
 are rejected

Such characters were left out silently.
---
 pyflp/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyflp/project.py b/pyflp/project.py
index 646beea..58e406c 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -337,6 +337,8 @@ class Project(EventModel):
                 if 0 < cp <= 127:
                     licensee.append(cp)
                     break
+            else:
+                raise ValueError(f"{char!r} cannot be stored at position {idx}")
         event.value = licensee.decode("ascii")
 
     looped = EventProp[bool](ProjectID.LoopActive)
-- 
2.43.0


From 94468cd95374f495276557aa83dd5ac6f58e54c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:50 +0000
Subject: [PATCH 50/62] fix: notes and controllers of all parts of a pattern

A pattern whose data is split over several places only showed the notes
and controllers of the first one.
---
 pyflp/pattern.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 0932441..23fb7fd 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -236,15 +236,8 @@ class Pattern(EventModel):
     """Represents a pattern which can contain notes, controllers and time markers."""
 
     def __repr__(self) -> str:
-        try:
-            num_notes = len(self.events.first(PatternID.Notes))  # type: ignore
-        except KeyError:
-            num_notes = 0
-
-        try:
-            num_ctrls = len(self.events.first(PatternID.Controllers))  # type: ignore
-        except KeyError:
-            num_ctrls = 0
+        num_notes = sum(len(e) for e in self.events.get(PatternID.Notes))  # type: ignore
+        num_ctrls = sum(len(e) for e in self.events.get(PatternID.Controllers))  # type: ignore
 
         return (
             f"Pattern(iid={self.iid}, name={self.name!r},"
@@ -262,8 +255,7 @@ class Pattern(EventModel):
     @property
     def controllers(self) -> Iterator[Controller]:
         """Parameter automations associated with this pattern (if any)."""
-        if PatternID.Controllers in self.events.ids:
-            event = cast(ControllerEvent, self.events.first(PatternID.Controllers))
+        for event in cast(Iterator[ControllerEvent], self.events.get(PatternID.Controllers)):
             yield from (Controller(item, i, event) for i, item in enumerate(event))
 
     @property
@@ -305,8 +297,7 @@ class Pattern(EventModel):
             However by using the :class:`Note` properties with a MIDI parsing
             library for example, you can export them to MIDI.
         """
-        if PatternID.Notes in self.events.ids:
-            event = cast(NotesEvent, self.events.first(PatternID.Notes))
+        for event in cast(Iterator[NotesEvent], self.events.get(PatternID.Notes)):
             yield from (Note(item, i, event) for i, item in enumerate(event))
 
     @property
-- 
2.43.0


From c1cae55111fd429c3971a02fa800e6ff240ef4b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:58 +0000
Subject: [PATCH 51/62] fix: size and repr of an insert's equaliser

InsertEQ.size looked up a misspelt keyword, so that reading it, as well
as printing the equaliser, raised a KeyError.
---
 pyflp/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index 4a1e7dd..cf5712e 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -276,7 +276,7 @@ class InsertEQ(ModelBase, ModelReprMixin):
 
     @property
     def size(self) -> int:
-        return 12 * self._kw["param"]  # ! TODO
+        return self.low.size + self.mid.size + self.high.size
 
     low = _InsertEQProp(
         _InsertEQPropArgs(_MixerParamsID.LowFreq, _MixerParamsID.LowGain, _MixerParamsID.LowQ)
-- 
2.43.0


From 5c3050f2766b92c9e969bc0097fdfb15414e7fe0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:40 +0000
Subject: [PATCH 52/62] fix: reading a tempo of which only the fraction is
 stored

None, as for a missing tempo, instead of a TypeError.
---
 pyflp/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 58e406c..c55cbc8 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -465,7 +465,7 @@ class Project(EventModel):
         tempo = None
         if ProjectID._TempoCoarse in self.events.ids:
             tempo = self.events.first(ProjectID._TempoCoarse).value
-        if ProjectID._TempoFine in self.events.ids:
+        if tempo is not None and ProjectID._TempoFine in self.events.ids:
             tempo += self.events.first(ProjectID._TempoFine).value / 1000
         return tempo
 
-- 
2.43.0


From 66b60c4132194bc5c3f90fbb23be5b6296236493 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:26 +0000
Subject: [PATCH 53/62] fix: Insert.routes paired send levels with the wrong
 inserts

The n-th stored level was taken for the level sent to the n-th insert and
the volume, pan etc. of the insert itself for further ones. The ID of a
level tells which insert it is sent to.
---
 pyflp/mixer.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index cf5712e..42addbe 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -540,16 +540,12 @@ class Insert(EventModel, ModelCollection[Slot]):
         if InsertID.Routing not in self.events.ids:
             return
 
-        items = iter(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
+        routed = list(cast(InsertRoutingEvent, self.events.first(InsertID.Routing)))
         for id, item in cast(_InsertItems, self._kw["params"]).own.items():
-            if id >= _MixerParamsID.RouteVolStart:
-                try:
-                    cond = next(items)
-                except StopIteration:
-                    continue
-                else:
-                    if cond:
-                        yield item["msg"]
+            # Levels are stored only for some of the inserts, their IDs tell which
+            idx = int(id) - int(_MixerParamsID.RouteVolStart)
+            if 0 <= idx < len(routed) and routed[idx] and int(id) < int(_MixerParamsID.Volume):
+                yield item["msg"]
 
     separator_shown = FlagProp(_InsertFlags.SeparatorShown, InsertID.Flags)
     """Whether separator is shown before the insert.
-- 
2.43.0


From aa19511c2de9a05c8816fcb2d0f282e24119f6b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:18 +0000
Subject: [PATCH 54/62] fix: Sampler.sample_path stored the text of values
 which are no paths

Assigning None or a number, for example, saved "None" or "5" as the path.
---
 pyflp/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 0e1bc6a..13766dd 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -16,6 +16,7 @@
 from __future__ import annotations
 
 import enum
+import os
 import pathlib
 from typing import Any, Iterator, Literal, Tuple, cast
 
@@ -1535,8 +1536,8 @@ class Sampler(_SamplerInstrument):
         if self.sample_path is None:
             raise PropertyCannotBeSet(ChannelID.SamplePath)
 
-        path = "" if str(value) == "." else str(value)
-        self.events.first(ChannelID.SamplePath).value = path
+        path = os.fspath(value)
+        self.events.first(ChannelID.SamplePath).value = "" if path == "." else path
 
     # TODO Find whether ChannelID._StretchTime was really used for attr ``time``.
     stretching = NestedProp(TimeStretching, ChannelID.Parameters)
-- 
2.43.0


From 073a577992e0eac8abc6fb0e9967df5203ea18cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:24 +0000
Subject: [PATCH 55/62] fix: a format which does not exist was saved

The saved file could not be parsed again.
---
 pyflp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index c8e22ae..1e70ec9 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -186,7 +186,8 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, project.channel_count, project.ppq)
+    file_format = FileFormat(project.format)
+    header = FLP_HEADER.pack(b"FLhd", 6, file_format, project.channel_count, project.ppq)
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From 0c2680b212a117094799544a5ad85c229df9a580 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:29 +0000
Subject: [PATCH 56/62] fix: anything bytes() takes was stored as a colour

Numbers for example, which are no colours, were saved as black.
---
 pyflp/_events.py     | 2 +-
 pyflp/arrangement.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 59177da..70c8da0 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -301,7 +301,7 @@ class ColorEvent(DWordEventBase[RGBA]):
     STRUCT = c.ExprAdapter(
         c.Bytes(4),
         lambda obj, *_: RGBA.from_bytes(obj),  # type: ignore
-        lambda obj, *_: bytes(obj),  # type: ignore
+        lambda obj, *_: bytes(RGBA(*obj)),  # type: ignore
     )
 
 
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 1ca69d0..7888bba 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -231,7 +231,7 @@ class _TrackColorProp(StructProp[RGBA]):
             return RGBA.from_bytes(value.to_bytes(4, "little"))
 
     def _set(self, ev_or_ins: Any, value: RGBA) -> None:
-        super()._set(ev_or_ins, int.from_bytes(bytes(value), "little"))  # type: ignore
+        super()._set(ev_or_ins, int.from_bytes(bytes(RGBA(*value)), "little"))  # type: ignore
 
 
 class _TrackHeightProp(StructProp[str]):
-- 
2.43.0


From 59779a2a9894f20ea76ee9ed43809be524972e10 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:45 +0000
Subject: [PATCH 57/62] fix: Sampler.sample_path set to bytes could not be set
 again

---
 pyflp/channel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 13766dd..7629b35 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -16,7 +16,6 @@
 from __future__ import annotations
 
 import enum
-import os
 import pathlib
 from typing import Any, Iterator, Literal, Tuple, cast
 
@@ -1533,10 +1532,10 @@ class Sampler(_SamplerInstrument):
 
     @sample_path.setter
     def sample_path(self, value: pathlib.Path) -> None:
-        if self.sample_path is None:
+        if ChannelID.SamplePath not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.SamplePath)
 
-        path = os.fspath(value)
+        path = value if isinstance(value, str) else str(pathlib.PurePath(value))
         self.events.first(ChannelID.SamplePath).value = "" if path == "." else path
 
     # TODO Find whether ChannelID._StretchTime was really used for attr ``time``.
-- 
2.43.0


From e1350557a98a66cd71da2687edfadb241144ca52 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:01 +0000
Subject: [PATCH 58/62] fix: replacing a plugin by an unsupported one kept the
 old internal name

The data was then taken for that of the old kind when the file was parsed again.
---
 pyflp/plugin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index d4daeaa..7bfa970 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -419,7 +419,8 @@ class PluginProp(RWProperty[AnyPlugin]):
 
     @staticmethod
     def _get_plugin_events(ins: EventModel) -> EventTree:
-        return ins.events.subtree(lambda e: e.id in (PluginID.Wrapper, PluginID.Data))
+        ids = (PluginID.InternalName, PluginID.Wrapper, PluginID.Data)
+        return ins.events.subtree(lambda e: e.id in ids)
 
     def __get__(self, ins: EventModel, owner: Any = None) -> AnyPlugin | None:
         if owner is None:
@@ -441,6 +442,9 @@ class PluginProp(RWProperty[AnyPlugin]):
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
         if isinstance(value, _IPlugin):
             setattr(ins, "internal_name", value.INTERNAL_NAME)
+        elif PluginID.InternalName in value.events:  # A plugin which isn't implemented
+            internal_name = value.events.first(PluginID.InternalName).value
+            setattr(ins, "internal_name", internal_name)
 
         for id in (PluginID.Data, PluginID.Wrapper):
             for ie in ins.events.lst:
-- 
2.43.0


From 3f93b678cdccb1186f3021cbdb69f4121b13d601 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:09 +0000
Subject: [PATCH 59/62] fix: replacing a plugin where there is no room for it
 was ignored or done by halves

---
 pyflp/plugin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 7bfa970..f99a732 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -440,6 +440,10 @@ class PluginProp(RWProperty[AnyPlugin]):
                 return ptype(self._get_plugin_events(ins))
 
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
+        for id in (PluginID.Data, PluginID.Wrapper):
+            if (id in ins.events) != (id in value.events):
+                raise PropertyCannotBeSet(id)
+
         if isinstance(value, _IPlugin):
             setattr(ins, "internal_name", value.INTERNAL_NAME)
         elif PluginID.InternalName in value.events:  # A plugin which isn't implemented
-- 
2.43.0


From 60f75a5aa6fab6203d41dbb622a9f6191c718493 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:35 +0000
Subject: [PATCH 60/62] fix: Project.version accepted parts which aren't
 numbers

The saved file couldn't be parsed again or had another version.
---
 pyflp/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index c55cbc8..8c5c14d 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -547,7 +547,7 @@ class Project(EventModel):
         else:
             parts = list(value)
 
-        if len(parts) < 3 or len(parts) > 4:
+        if len(parts) < 3 or len(parts) > 4 or not all(str(part).isdecimal() for part in parts):
             raise ValueError("Expected format: major.minor.build.patch?")
 
         version = ".".join(str(part) for part in parts)
-- 
2.43.0


From 4f820e89d69bb839dab0bbb3c0d4cd3198d4a9b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:27 +0000
Subject: [PATCH 61/62] fix: a Track.height lacking its % sign lost its last
 digit

---
 pyflp/arrangement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 7888bba..a996790 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -241,6 +241,8 @@ class _TrackHeightProp(StructProp[str]):
             return f"{round(value * 100)}%"
 
     def _set(self, ev_or_ins: Any, value: str) -> None:
+        if not value.endswith("%"):
+            raise ValueError(f"Expected a percentage; got {value!r}")
         super()._set(ev_or_ins, int(value[:-1]) / 100)  # type: ignore
 
 
-- 
2.43.0


From c7db6084e6bf9a6850c8a7706497ef14049dc248 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:39 +0000
Subject: [PATCH 62/62] fix: FruityNotebook2.pages is a dict of page numbers to
 contents

The list of structures the event consists of was returned instead,
including the marker of the end of pages.
---
 pyflp/plugin.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index f99a732..7cd4eac 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -461,6 +461,21 @@ class _NativePluginProp(StructProp[T]):
         super().__init__(PluginID.Data, prop=prop, **kwds)
 
 
+class _NotebookPagesProp(_NativePluginProp[Dict[int, str]]):
+    def _get(self, ev_or_ins: Any) -> dict[int, str]:
+        pages = ev_or_ins[self._prop]
+        return {page["index"]: page["value"] for page in pages if page["index"] != -1}
+
+    def _set(self, ev_or_ins: Any, value: dict[int, str]) -> None:
+        pages: list[dict[str, Any]] = []
+        for index, text in value.items():
+            if index == -1:  # Marks the end of pages
+                raise ValueError("Invalid page number -1")
+            length = len(text.encode("utf-16-le")) // 2
+            pages.append({"index": index, "length": length, "value": text})
+        ev_or_ins[self._prop] = [*pages, {"index": -1}]
+
+
 class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def __init__(self, id: _VSTPluginEventID, prop: str | None = None) -> None:
         self._id = id
@@ -994,7 +1009,7 @@ class FruityNotebook2(_PluginBase[FruityNotebook2Event], _IPlugin, ModelReprMixi
     This attribute is just a visual marker used by FL Studio.
     """
 
-    pages = _NativePluginProp[Dict[int, str]]()
+    pages = _NotebookPagesProp()
     """A dict of page numbers to their contents."""
 
 
-- 
2.43.0

