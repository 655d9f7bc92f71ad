"""Reference reading of an FLP: what PyFLP's public API must show for it.

``RefModel(flp)`` derives, from the raw events alone, every observable setting
(:class:`Obs`) and every structural fact (:class:`Fact`) the library promises,
together with the ways (aliases) by which the same object can be reached. None
of PyFLP's code is used here.
"""

from __future__ import annotations

import datetime
import itertools
import struct

from fields import (members, named,
    ABSENT, Bits, Codec, Color, EnumNum, F32, F64, Flag8, Flag32, Height, LastFlag, Licensee, LogNorm, Log2, Marker, Musical,
    Num, Pages, Pair, PairPart, PathText, PlainEnum, RawBytes, RawText, Rec, Reverb, StrEnum, Text, rand_int,
)
import flpfmt

CHANNEL_IDS = frozenset(
    (0, 2, 3, 15, 20, 21, 22, 32, 64, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89, 94, 97, 131, 132, 135, 138,
     139, 140, 142, 143, 144, 145, 153, 192, 196, 209, 215, 218, 219, 221, 228, 229, 234))
PLUGIN_IDS = frozenset((128, 155, 201, 203, 212, 213))
PATTERN_IDS = frozenset((26, 65, 150, 193, 160, 161, 162, 164, 223, 224))
MARKER_IDS = frozenset((33, 34, 148, 205))
INSERT_IDS = frozenset((95, 147, 149, 154, 204, 235, 236))
SIMPLE = {  # what the value of a plain event denotes
    **{i: Flag8(0) for i in (0, 9, 10, 15, 20, 26, 28, 30, 32)},
    22: Num(0, "b"), 80: Num(0, "h"), 95: Num(0, "h"),
    **{i: Num(0, "i") for i in (142, 145, 146, 147, 154, 161)},
    **{i: Color(0) for i in (128, 149, 150)},
    **{i: Pair(0, "H") for i in (131, 132, 138, 152)},
    140: F32(0),
}
NATIVE_GENERATORS = ("BooBass", "Fruit Kick", "Plucked!")
NATIVE_EFFECTS = ("Fruity Balance", "Fruity Blood Overdrive", "Fruity Center", "Fruity Fast Dist",
                  "Fruity NoteBook 2", "Fruity Send", "Fruity Soft Clipper", "Fruity Stereo Enhancer", "Soundgoodizer")
VST = "Fruity Wrapper"
PLUGIN_CLASS = {
    "BooBass": "BooBass", "Fruit Kick": "FruitKick", "Plucked!": "Plucked", "Fruity Balance": "FruityBalance",
    "Fruity Blood Overdrive": "FruityBloodOverdrive", "Fruity Center": "FruityCenter",
    "Fruity Fast Dist": "FruityFastDist", "Fruity NoteBook 2": "FruityNotebook2", "Fruity Send": "FruitySend",
    "Fruity Soft Clipper": "FruitySoftClipper", "Fruity Stereo Enhancer": "FruityStereoEnhancer",
    "Soundgoodizer": "Soundgoodizer", VST: "VSTPlugin",
}
ARP = members("Off Up Down UpDownBounce UpDownSticky Random")
DECLICK = members("OutOnly TransientNoBleeding Transient Generic Smooth Crossfade")
FILTER = members("FastLP LP BP HP BS LPx2 SVFLP SVFLPx2")
STRETCH = members("Stretch Resample E3Generic E3Mono SliceStretch SliceMap Auto E2Generic E2Transient E2Mono E2Speech", -1)
LFO = members("Sine Triangle Pulse")
PAGES = {0: "Editor", 1: "Settings", 3: "Sample", 4: "Envelope", 5: "Miscellaneous"}
MOTION = members("Stay OneShot MarchWrap MarchStay MarchStop Random ExclusiveRandom")
PRESS = members("Retrigger HoldStop HoldMotion Latch")
SYNC = members("Off QuarterBeat HalfBeat Beat TwoBeats FourBeats Auto")
FORMAT_NAMES = {-1: "None_", 0: "Project", 0x10: "Score", 24: "Automation", 0x20: "ChannelState", 0x30: "PluginState",
                0x31: "GeneratorState", 0x32: "FXState", 0x40: "InsertState", 0x50: "_ProbablyPatcher"}
ENV_NAMES = ("Panning", "Volume", "Mod X", "Mod Y", "Pitch")


def native_fields(name, n):
    """``{attribute: codec}`` of a native plugin with ``n`` bytes of data."""
    u = lambda o: Num(o, "I")
    s = lambda o: Num(o, "i")
    if name == "BooBass":
        o = 4 if n == 16 else 0
        return dict(bass=u(o), mid=u(o + 4), high=u(o + 8))
    if name == "Fruit Kick":
        return dict(max_freq=s(4), min_freq=s(8), freq_decay=u(12), amp_decay=u(16), click=u(20), distortion=u(24))
    if name == "Plucked!":
        return dict(decay=u(0), color=u(4), normalize=Flag32(8), gate=Flag32(12), widen=Flag32(16))
    if name == "Fruity Balance":
        return dict(pan=s(0), volume=u(4))
    if name == "Fruity Blood Overdrive":
        o = 4 if n == 36 else 0
        return dict(pre_band=u(o), color=u(o + 4), pre_amp=u(o + 8), x100=Flag32(o + 12), post_filter=u(o + 16),
                    post_gain=u(o + 20))
    if name == "Fruity Center":
        return dict(enabled=Flag32(4 if n == 8 else 0))
    if name == "Fruity Fast Dist":
        return dict(pre=u(0), threshold=u(4), kind=StrEnum(8, ["A", "B"]), mix=u(12), post=u(16))
    if name == "Fruity NoteBook 2":
        return dict(active_page=u(4), pages=Pages(), editable=LastFlag(n - 1))
    if name == "Fruity Send":
        return dict(pan=s(0), dry=u(4), volume=u(8), send_to=s(12))
    if name == "Fruity Soft Clipper":
        return dict(threshold=u(0), post=u(4))
    if name == "Fruity Stereo Enhancer":
        return dict(pan=s(0), volume=u(4), stereo_separation=s(8), phase_offset=s(12),
                    effect_position=StrEnum(16, ["pre", "post"]), phase_inversion=StrEnum(20, ["none", "left", "right"]))
    if name == "Soundgoodizer":
        o = 4 if n == 12 else 0
        return dict(mode=StrEnum(o, ["A", "B", "C", "D"]), amount=u(o + 4))
    raise KeyError(name)


WRAPPER_BITS = dict(visible=1, disabled=2, detached=4, generator=0x10, smart_disable=0x20, multithreaded=0x40,
                    demo_mode=0x80, compact=0x100, minimized=0x200, directx=0x10000)


def _vb(bit, inv=False):
    return Rec(2, Bits(9, "I", 1 << bit, inv))


VST_OPTIONS = {
    ("automation", "notify_changes"): _vb(6, True),
    ("compatibility", "buffers_maxsize"): Rec(2, Bits(13, "I", 2)),
    ("compatibility", "fast_idle"): Rec(2, Flag8(22)),
    ("compatibility", "fixed_buffers"): _vb(1),
    ("compatibility", "process_maximum"): Rec(2, Bits(13, "I", 1)),
    ("compatibility", "reset_on_transport"): _vb(25, True),
    ("compatibility", "send_loop"): _vb(11),
    ("compatibility", "use_time_offset"): _vb(31, True),
    ("midi", "input"): Rec(1, Num(0, "i")),
    ("midi", "output"): Rec(1, Num(4, "i")),
    ("midi", "pb_range"): Rec(1, Num(8, "I")),
    ("midi", "send_modx"): _vb(17),
    ("midi", "send_pb"): _vb(0),
    ("midi", "send_release"): _vb(5, True),
    ("processing", "allow_sd"): _vb(29),
    ("processing", "bridged"): _vb(18),
    ("processing", "external"): _vb(21),
    ("processing", "keep_state"): _vb(16, True),
    ("processing", "multithreaded"): _vb(12),
    ("processing", "notify_render"): _vb(2),
    ("processing", "process_inactive"): _vb(3),
    ("ui", "accept_drop"): _vb(28),
    ("ui", "always_update"): _vb(23),
    ("ui", "dpi_aware"): _vb(26),
    ("ui", "scale_editor"): _vb(30),
    ("", "fourcc"): Rec(51, RawText()),
    ("", "guid"): Rec(52, RawBytes()),
    ("", "state"): Rec(53, RawBytes()),
    ("", "name"): Rec(54, RawText()),
    ("", "plugin_path"): Rec(55, RawText()),
    ("", "vendor"): Rec(56, RawText()),
}


class Obs:
    """A setting: where to find it in the API and in the file."""

    __slots__ = ("area", "path", "attr", "ev", "codec", "default", "mode", "structural", "rec")

    def __init__(self, area, path, attr, ev, codec, default=None, mode="rw", structural=False, rec=False):
        self.area, self.path, self.attr, self.ev, self.codec = area, path, attr, ev, codec
        self.default, self.mode, self.structural, self.rec = default, mode, structural, rec

    def key(self):
        return show_path(self.path) + "." + self.attr

    __repr__ = key

    def want(self, flp):
        """Value or ABSENT (reads as the default, or raises for a VST record)."""
        if self.ev is None:
            return ABSENT
        return self.codec.dec(flp.events[self.ev][1])

    def raises(self, flp):
        return self.rec and not (self.ev is not None and self.codec.has(flp.events[self.ev][1]))

    def write(self, flp, v):
        i, p = flp.events[self.ev]
        flp.events[self.ev] = (i, self.codec.enc(p, v))

    def rand(self, rng, flp):
        return self.codec.rand(rng, flp.events[self.ev][1])


class HeaderCodec(Codec):
    def __init__(self, values, bads):
        self.values, self.bads = values, bads

    def rand(self, rng, p):
        return rng.choice(self.values)

    def bad(self, rng, cur):
        return list(self.bads)


class HeaderObs(Obs):
    __slots__ = ("field",)

    def __init__(self, attr, field, codec):
        super().__init__("project", (), attr, None, codec)
        self.field = field

    def want(self, flp):
        return getattr(flp, self.field)

    def write(self, flp, v):
        setattr(flp, self.field, v)

    def rand(self, rng, flp):
        return self.codec.rand(rng, b"")


def pan_law():
    from pyflp.project import PanLaw

    return PanLaw


class FormatCodec(HeaderCodec):
    def same(self, got, want):
        return got == want and named(got, FORMAT_NAMES[want])

    def arg(self, cur, v):
        return type(cur)[FORMAT_NAMES[v]]


class TempoCodec(Codec):
    def bad(self, rng, cur):
        return [9.999, 0, 999.5, -5, "120", None]


class TempoObs(Obs):
    """One number (x 1000), or a coarse one and an optional fine one."""

    __slots__ = ("coarse", "fine", "version")

    def __init__(self, ev, coarse, fine, version):
        super().__init__("project", (), "tempo", ev if ev is not None else coarse, TempoCodec())
        self.ev, self.coarse, self.fine, self.version = ev, coarse, fine, version

    def want(self, flp):
        n = lambda i: int.from_bytes(flp.events[i][1], "little")
        if self.ev is not None:
            return n(self.ev) / 1000
        if self.coarse is None:
            return ABSENT
        return n(self.coarse) + (n(self.fine) / 1000 if self.fine is not None else 0)

    def write(self, flp, v):
        def put(i, n):
            id_, p = flp.events[i]
            flp.events[i] = (id_, n.to_bytes(len(p), "little"))

        ms = round(v * 1000)
        if self.ev is not None:
            put(self.ev, ms)
        if self.fine is not None:
            put(self.fine, ms % 1000)
        if self.coarse is not None:
            put(self.coarse, ms // 1000)

    def limits(self):
        v = (tuple(self.version) + (0, 0))[:3]
        return 10, (999 if (1, 4, 2) <= v < (11, 0, 0) else 522)

    def rand(self, rng, flp):
        lo, hi = self.limits()
        fine = tuple(self.version[:3]) >= (3, 4, 0) and (self.ev is not None or self.fine is not None)
        ms = rng.choice((lo * 1000, hi * 1000, rng.randint(lo * 1000, hi * 1000), rng.randint(60000, 200000)))
        if not fine:
            return ms // 1000
        return ms / 1000 if rng.random() < 0.8 else ms // 1000


class VersionCodec(Codec):
    def same(self, got, want):
        if got is None:
            return False
        t = (got.major, got.minor, got.patch) + ((got.build,) if got.build is not None else ())
        return t == tuple(want) + (0,) * (3 - len(want))

    def arg(self, cur, v):
        return tuple(v)

    def bad(self, rng, cur):
        return [(1, 2), (1, 2, 3, 4, 5), "1.2", "a.b.c", ""]


class VersionObs(Obs):
    __slots__ = ("build",)

    def __init__(self, ev, build):
        super().__init__("project", (), "version", ev, VersionCodec(), structural=True)
        self.build = build

    def want(self, flp):
        return tuple(int(x) for x in flp.events[self.ev][1].decode("ascii").rstrip("\0").split("."))

    def write(self, flp, v):
        flp.events[self.ev] = (199, (".".join(map(str, v)) + "\0").encode("ascii"))
        if len(v) == 4 and self.build is not None:
            flp.events[self.build] = (159, struct.pack("<I", v[3]))

    def rand(self, rng, flp):
        cur = self.want(flp)
        if tuple(cur[:2]) >= (12, 9) and tuple(cur[:3]) >= (12, 9, 1):
            base = rng.choice(((12, 9, 1), (20, 0, 0), (20, 9, 2), (21, 0, 3), (24, 1, 1), (20, rng.randint(0, 99), rng.randint(0, 9))))
        elif tuple(cur[:2]) >= (11, 5):
            base = rng.choice(((11, 5, 0), (12, 0, 1), (12, 5, 1), (12, 9, 0)))
        else:
            base = rng.choice(((11, 0, 0), (11, 1, 1), (11, 4, 9), (11, 2, 3)))
        return base + ((rng.choice((0, 1, 9999, 123456)),) if rng.random() < 0.5 else ())


class Dock(Bits):
    def dec(self, p):
        r = self.raw(p)
        if r is ABSENT:
            return r
        return "Middle" if r & 0x40 else "Right" if r & 0x80 else "Left"

    def same(self, got, want):
        return getattr(got, "name", None) == want


class Days(Codec):
    """A duration in days, since the Delphi epoch or absolute."""

    def __init__(self, off, epoch):
        self.off, self.epoch = off, epoch

    def dec(self, p):
        d = datetime.timedelta(days=struct.unpack_from("<d", p, self.off)[0])
        return datetime.datetime(1899, 12, 30) + d if self.epoch else d


class LoopPos(Codec):
    def __init__(self, fmt):
        self.fmt = fmt
        self.size = struct.calcsize("<2" + fmt)

    def dec(self, p):
        return struct.unpack_from("<2" + self.fmt, p) if len(p) >= self.size else ABSENT

    def same(self, got, want):
        return got is not None and tuple(got) == want

    def enc(self, p, v):
        return struct.pack("<2" + self.fmt, *v) + p[self.size:]

    def rand(self, rng, p):
        hi = 0xFFFF if self.fmt == "H" else 0xFFFFFFFF
        return rand_int(rng, 0, hi), rand_int(rng, 0, hi)

    def bad(self, rng, cur):
        hi = 0xFFFF if self.fmt == "H" else 0xFFFFFFFF
        return [(hi + 1, 0), (0, -1), ("a", 0)]


class PointPos(Codec):
    """Automation points store the distance from the previous one."""

    def __init__(self, k):
        self.k = k

    def dec(self, p):
        pos = 0.0
        for i in range(self.k + 1):
            pos += struct.unpack_from("<d", p, 21 + 24 * i)[0]
        return pos


class Key(Num):
    NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")

    def __init__(self, off):
        super().__init__(off, "H", 0, 131)

    def dec(self, p):
        r = self.raw(p)
        return self.NAMES[r % 12] + str(r // 12)

    def enc(self, p, v):
        if isinstance(v, str):
            n = 2 if v[1] == "#" else 1
            v = self.NAMES.index(v[:n]) + 12 * int(v[n:])
        return self.put(p, v)

    def rand(self, rng, p):
        r = rng.choice((0, 60, 131, rng.randint(0, 131)))
        return self.NAMES[r % 12] + str(r // 12)

    def arg(self, cur, v):
        return v

    def bad(self, rng, cur):
        return [-1, 132, 1000, "H5", "", "C", "C11", "B#3x", "5", "Cb4"]


class Offsets(Codec):
    def __init__(self, off):
        self.off = off

    def dec(self, p):
        return struct.unpack_from("<2f", p, self.off)

    def same(self, got, want):
        return got is not None and tuple(got) == want

    def enc(self, p, v):
        b = bytearray(p)
        struct.pack_into("<2f", b, self.off, *v)
        return bytes(b)

    def rand(self, rng, p):
        f = F32(0)
        return f.rand(rng, p), f.rand(rng, p)

    def bad(self, rng, cur):
        return [(1e39, 0.0), ("a", 0.0)]


class Fact:
    """A structural fact: ``fn(handle)`` must give ``want``."""

    __slots__ = ("area", "path", "label", "fn", "want")

    def __init__(self, area, path, label, fn, want):
        self.area, self.path, self.label, self.fn, self.want = area, path, label, fn, want

    def key(self):
        return show_path(self.path) + " " + self.label

    __repr__ = key


def show_path(path):
    out = "project"
    for kind, x in path:
        out += "." + x if kind == "." else "{%d}" % x if kind == "#" else "[%r]" % (x,) if kind == "@" else "[%d:%d][0]" % (x, x + 1)
    return out


CH = (".", "channels")
PA = (".", "patterns")
AR = (".", "arrangements")
MX = (".", "mixer")


def no_current(h):
    from pyflp.exceptions import ModelNotFound

    try:
        return h.current
    except ModelNotFound:
        return "not found"


class RefModel:
    def __init__(self, flp):
        self.flp = flp
        self.version = flpfmt.version_of(flp.events) or (20, 8, 4)
        self.enc = flpfmt.text_codec(self.version)
        self.obs = []
        self.facts = []
        self.aliases = {}  # canonical host path -> other paths of the same object
        self.first = {}
        for n, (i, _) in enumerate(flp.events):
            self.first.setdefault(i, n)
        self._project()
        self._channels()
        self._patterns()
        self._arrangements()
        self._mixer()
        for f in self.facts:
            pass

    # helpers -----------------------------------------------------------------
    def _o(self, area, path, attr, ev, codec, default=None, **kw):
        o = Obs(area, path, attr, ev, codec, default, **kw)
        self.obs.append(o)
        return o

    def _f(self, area, path, label, fn, want):
        self.facts.append(Fact(area, path, label, fn, want))

    def _alias(self, path, other):
        self.aliases.setdefault(path, []).append(other)

    def _text(self):
        return Text(self.enc)

    # project -----------------------------------------------------------------
    def _project(self):
        o, g = self._o, self.first.get
        P = ()
        for attr, i in (("title", 194), ("artists", 207), ("genre", 206), ("url", 197)):
            o("project", P, attr, g(i), self._text())
        o("project", P, "comments", g(195) if 195 in self.first else g(198), self._text())
        o("project", P, "data_path", g(202), PathText(self.enc, True))
        o("project", P, "licensee", g(200), Licensee(self.enc))
        for attr, i in (("licensed", 28), ("looped", 9), ("show_info", 10)):
            o("project", P, attr, g(i), Flag8(0))
        o("project", P, "main_pitch", g(80), Num(0, "h"))
        o("project", P, "main_volume", g(12), Num(0, "B"))
        o("project", P, "pan_law", g(23), PlainEnum(0, "B", {0: "Circular", 2: "Triangular"}, pan_law))
        o("project", P, "created_on", g(237), Days(0, True), mode="ro")
        o("project", P, "time_spent", g(237), Days(8, False), mode="ro")
        self.obs.append(TempoObs(g(156), g(66), g(93), self.version))
        if 199 in self.first:
            self.obs.append(VersionObs(g(199), g(159)))
        self.obs.append(HeaderObs("channel_count", "nch", HeaderCodec((0, 1, 5, 1000, 65535), (-1, -100))))
        self.obs.append(HeaderObs("ppq", "ppq", HeaderCodec(flpfmt.PPQS, (0, 1, 25, 95, 97, 961, -24, "96"))))
        self.obs.append(HeaderObs("format", "fmt", FormatCodec(flpfmt.FORMATS, (5, 1, 99, -2, 0x33, 1 << 15, None, "Score", 2.5, True))))
        # rack / collections
        o("rack", (CH,), "swing", g(11), Num(0, "B"))
        o("rack", (CH,), "fit_to_steps", g(13), Num(0, "B"))
        o("rack", (CH,), "height", g(133), Num(0, "I"))
        o("patterns", (PA,), "play_cut_notes", g(30), Flag8(0))
        ts = (AR, (".", "time_signature"))
        o("arrs", ts, "num", g(17), Num(0, "B"))
        o("arrs", ts, "beat", g(18), Num(0, "B"))
        if 217 in self.first and len(self.flp.events[g(217)][1]) >= 8:
            o("arrs", (AR,), "loop_pos", g(217), LoopPos("I"))
        elif 217 not in self.first:
            o("arrs", (AR,), "loop_pos", g(152), LoopPos("H"))
        o("mixer", (MX,), "apdc", g(29), Num(0, "B", 0, 1))

    # channels ----------------------------------------------------------------
    def _channels(self):
        ev = self.flp.events
        groups, self.channels, cur, flags_seen = [], [], None, False
        for n, (i, p) in enumerate(ev):
            if i == 231:
                groups.append(n)
            if i == 236:
                flags_seen = True
            if i == 64:
                cur = []
                self.channels.append(cur)
            if cur is not None and (i in CHANNEL_IDS or (i in PLUGIN_IDS and not flags_seen)):
                cur.append(n)
        self.groups = groups
        for k, n in enumerate(groups):
            self._o("rack", (CH, (".", "groups"), ("#", k)), "name", n, self._text())
        self._f("rack", (CH, (".", "groups")), "number of groups", lambda h: len([x for x in h]), len(groups))
        self._f("rack", (CH,), "number of channels iterated", lambda h: len([x for x in h]), len(self.channels))
        if self.channels:
            self._f("rack", (CH,), "len", len, len(self.channels))
        infos = []
        for k, idxs in enumerate(self.channels):
            infos.append(self._channel(k, idxs))
        self.chinfo = infos
        iids = [c["iid"] for c in infos]
        self.ch_by_iid = {}
        for k, i in enumerate(iids):
            self.ch_by_iid[i] = k
        self._f("rack", (CH,), "IDs in order", lambda h: [c.iid for c in h], iids)
        self._f("rack", (CH,), "kinds in order", lambda h: [type(c).__name__ for c in h], [c["kind"] for c in infos])
        for kind, attr in (("Sampler", "samplers"), ("Instrument", "instruments"), ("Layer", "layers"), ("Automation", "automations")):
            ks = [k for k, c in enumerate(infos) if c["kind"] == kind]
            self._f("rack", (CH,), attr, lambda h, attr=attr: [c.iid for c in getattr(h, attr)], [iids[k] for k in ks])
            for j, k in enumerate(ks):
                self._alias((CH, ("#", k)), (CH, (".", attr), ("#", j)))
        seen = {}
        for k, c in enumerate(infos):
            p = (CH, ("#", k))
            self._alias(p, (CH, ("s", k)))
            if iids.index(c["iid"]) == k:
                self._alias(p, (CH, ("@", c["iid"])))
            dn = c["display_name"]
            if dn and dn not in seen:
                seen[dn] = k
        self.ch_names = seen
        for k, c in enumerate(infos):
            if c["kind"] != "Layer":
                continue
            kids = [struct.unpack("<H", ev[n][1])[0] for n in self.channels[k] if ev[n][0] == 94]
            lp = (CH, ("#", k))
            self._f("layer", lp, "children", lambda h: [x.iid for x in h], kids)
            self._f("layer", lp, "len", len, len(kids))
            for j, iid in enumerate(kids):
                if iid in self.ch_by_iid:
                    kp = (CH, ("#", self.ch_by_iid[iid]))
                    self._alias(kp, lp + (("#", j),))
                    self._alias(kp, lp + (("@", iid),))

    def _channel(self, k, idxs):
        ev = self.flp.events
        by = {}
        for n in idxs:
            by.setdefault(ev[n][0], []).append(n)
        g = lambda i: by[i][0] if i in by else None
        o = self._o
        P = (CH, ("#", k))
        A = "channel"
        iid = struct.unpack("<H", ev[g(64)][1])[0]
        typ = ev[g(21)][1][0]
        kind = {5: "Automation", 3: "Layer", 0: "Sampler", 4: "Instrument", 2: "Instrument"}.get(typ, "Channel")
        iname = ev[g(201)][1].decode(self.enc).rstrip("\0") if 201 in by else None
        if kind == "Instrument" and 196 in by and iname == "":
            kind = "Sampler"
        o(A, P, "iid", g(64), Num(0, "H"), structural=True)
        o(A, P, "color", g(128), Color(0))
        o(A, P, "internal_name", g(201), self._text(), structural=True)
        o(A, P, "enabled", g(0), Flag8(0))
        o(A, P, "icon", g(155), Num(0, "I"))
        o(A, P, "locked", g(32), Flag8(0))
        nm = g(203) if 203 in by else g(192)
        o(A, P, "name", nm, self._text())
        name = ev[nm][1].decode(self.enc).rstrip("\0") if nm is not None else None
        dn = name or iname
        self._f(A, P, "display_name", lambda h: h.display_name, dn)
        self._f(A, P, "zipped", lambda h: h.zipped, bool(ev[g(15)][1][0]) if 15 in by else False)
        if 145 in by:
            gn = struct.unpack("<i", ev[g(145)][1])[0]
        else:
            gn = None
        if gn is not None and 0 <= gn < len(self.groups):
            gp = (CH, (".", "groups"), ("#", gn))
            self._alias(gp, P + ((".", "group"),))
            self._f(A, P, "group", lambda h: h.group.name, ev[self.groups[gn]][1].decode(self.enc).rstrip("\0"))
        else:
            self._f(A, P, "group", lambda h: h.group, None)
        if 219 in by:
            o(A, P, "pan", g(219), Num(0, "i"))
            o(A, P, "volume", g(219), Num(4, "I"))
        else:
            for attr, w, b in (("pan", 73, 3), ("volume", 72, 2)):
                if not (w in by and b in by):
                    i = w if w in by else b
                    o(A, P, attr, g(i), Num(0, "H" if i == w else "B"))
        kb = P + ((".", "keyboard"),)
        par = g(215)
        o(A, kb, "fine_tune", g(142), Num(0, "i"))
        o(A, kb, "root_note", g(135), Num(0, "I"), default=60)
        o(A, kb, "main_pitch", par, Flag8(11))
        o(A, kb, "add_root", par, Flag8(63))
        o(A, kb, "key_region", par, Pair(68, "I"))
        if kind == "Automation":
            o(A, P + ((".", "lfo"),), "amount", g(234), Num(4, "i"))
            if 234 in by:
                (count,) = struct.unpack_from("<I", ev[g(234)][1], 17)
                self._f("points", P, "number of points", lambda h: len([x for x in h]), count)
                for j in range(count):
                    q = P + (("#", j),)
                    self._alias(q, P + (("@", j),))
                    self._alias(q, P + (("s", j),))
                    o(A, q, "position", g(234), PointPos(j), mode="ro")
                    o(A, q, "value", g(234), F64(21 + 24 * j + 8))
                    o(A, q, "tension", g(234), F32(21 + 24 * j + 16))
            else:
                self._f("points", P, "number of points", lambda h: len([x for x in h]), 0)
        if kind == "Layer":
            o(A, P, "random", g(144), Bits(0, "I", 1))
            o(A, P, "crossfade", g(144), Bits(0, "I", 2))
        if kind in ("Sampler", "Instrument"):
            self._sampler_instrument(P, by, g, par)
        if kind == "Instrument":
            self._plugin(P, by, g, iname, NATIVE_GENERATORS)
        if kind == "Sampler":
            self._sampler(P, by, g, par)
        return dict(iid=iid, kind=kind, display_name=dn, name=name)

    def _sampler_instrument(self, P, by, g, par):
        o, A = self._o, "channel"
        q = P + ((".", "arp"),)
        o(A, q, "direction", par, EnumNum(40, "I", ARP))
        o(A, q, "range", par, Num(44, "I"))
        o(A, q, "chord", par, Num(48, "I"))
        o(A, q, "time", par, F32(52))
        o(A, q, "gate", par, F32(56))
        o(A, q, "slide", par, Flag8(60))
        o(A, q, "repeat", par, Num(92, "I"))
        o(A, P, "cut_group", g(132), Pair(0, "H"))
        q = P + ((".", "delay"),)
        d = g(209)
        for attr, c in (("feedback", Num(0, "I")), ("pan", Num(4, "i")), ("pitch_shift", Num(8, "i")),
                        ("echoes", Num(12, "I")), ("time", Num(16, "I"))):
            o(A, q, attr, d, c)
        o(A, q, "fat_mode", par, Bits(10, "B", 4))
        o(A, q, "ping_pong", par, Bits(10, "B", 2))
        o(A, q, "mod_x", g(138), PairPart(0, "H"))
        o(A, q, "mod_y", g(138), PairPart(2, "H"))
        o(A, P, "insert", g(22), Num(0, "b"))
        q = P + ((".", "level_adjusts"),)
        for attr, c in (("pan", Num(0, "i")), ("volume", Num(4, "I")), ("mod_x", Num(12, "i")), ("mod_y", Num(16, "i"))):
            o(A, q, attr, g(229), c)
        o(A, P, "pitch_shift", g(219), Num(8, "i"))
        q = P + ((".", "polyphony"),)
        o(A, q, "max", g(221), Num(0, "I"))
        o(A, q, "slide", g(221), Num(4, "I"))
        o(A, q, "mono", g(221), Bits(8, "B", 1))
        o(A, q, "porta", g(221), Bits(8, "B", 2))
        q = P + ((".", "time"),)
        o(A, q, "swing", g(97), Num(0, "H"))
        o(A, q, "shift", g(89), Num(0, "H"))
        o(A, q, "gate", par, Num(64, "H"))
        o(A, q, "full_porta", par, Flag8(62))
        if 228 in by:
            tr = by[228][:2]
            self._f(A, P, "tracking", lambda h: sorted(h.tracking), sorted(("volume", "keyboard")[: len(tr)]))
            for n, key in zip(tr, ("volume", "keyboard")):
                q = P + ((".", "tracking"), ("@", key))
                o(A, q, "middle_value", n, Num(0, "I"))
                for attr, off in (("pan", 4), ("mod_x", 8), ("mod_y", 12)):
                    o(A, q, attr, n, Num(off, "i"))
        else:
            self._f(A, P, "tracking", lambda h: h.tracking, None)

    def _sampler(self, P, by, g, par):
        o, A = self._o, "channel"
        o(A, P, "au_sample_rate", g(153), Num(0, "I"))
        q = P + ((".", "content"),)
        o(A, q, "declick_mode", par, EnumNum(83, "B", DECLICK))
        for attr, m in (("resample", 1), ("load_regions", 2), ("load_slices", 4), ("keep_on_disk", 0x100)):
            o(A, q, attr, g(143), Bits(0, "I", m))
        q = P + ((".", "filter"),)
        o(A, q, "mod_x", g(219), Num(12, "I"))
        o(A, q, "mod_y", g(219), Num(16, "I"))
        o(A, q, "type", g(219), EnumNum(20, "I", FILTER))
        q = P + ((".", "fx"),)
        for attr, i in (("boost", 74), ("cutoff", 71), ("fade_in", 76), ("fade_out", 75), ("freq_tilt", 69),
                        ("pogo", 86), ("resonance", 83), ("stereo_delay", 85)):
            o(A, q, attr, g(i), Num(0, "H"))
        for attr, m in (("fade_stereo", 1), ("reverse", 2), ("clip", 4), ("swap_stereo", 0x100)):
            o(A, q, attr, g(70), Bits(0, "H", m))
        o(A, q, "crossfade", par, Num(84, "I"))
        o(A, q, "trim", par, Num(88, "I"))
        o(A, q, "fix_trim", par, Flag8(157))
        o(A, q, "inverted", par, Flag8(81))
        o(A, q, "normalize", par, Flag8(80))
        o(A, q, "remove_dc", par, Flag8(9))
        o(A, q, "start", par, LogNorm(133))
        o(A, q, "length", par, LogNorm(141))
        o(A, q, "ringmod", g(131), Pair(0, "H"))
        r = q + ((".", "reverb"),)
        o(A, r, "type", g(139), Reverb(0, "type"))
        o(A, r, "mix", g(139), Reverb(0, "mix"))
        q = P + ((".", "playback"),)
        o(A, q, "ping_pong_loop", g(20), Flag8(0))
        o(A, q, "start_offset", par, Num(148, "I"))
        o(A, q, "use_loop_points", g(143), Bits(0, "I", 8))
        o(A, P, "sample_path", g(196), PathText(self.enc))
        q = P + ((".", "stretching"),)
        o(A, q, "time", par, Musical(96))
        o(A, q, "pitch", par, Num(100, "i"))
        o(A, q, "multiplier", par, Log2(104))
        o(A, q, "mode", par, EnumNum(108, "i", STRETCH))
        if 218 in by:
            el = by[218][:5]
            names = ENV_NAMES[: len(el)]
            self._f(A, P, "envelopes", lambda h: list(h.envelopes), list(names))
            self._f(A, P, "lfos", lambda h: list(h.lfos), list(names))
            for n, name in zip(el, names):
                q = P + ((".", "envelopes"), ("@", name))
                for attr, off in (("enabled", 4), ("predelay", 8), ("attack", 12), ("hold", 16), ("decay", 20),
                                  ("sustain", 24), ("release", 28), ("amount", 32), ("attack_tension", 56),
                                  ("decay_tension", 60), ("release_tension", 64)):
                    o(A, q, attr, n, Num(off, "i"))
                o(A, q, "synced", n, Bits(0, "I", 1))
                q = P + ((".", "lfos"), ("@", name))
                for attr, off, f in (("predelay", 36, "I"), ("attack", 40, "I"), ("amount", 44, "i"), ("speed", 48, "I")):
                    o(A, q, attr, n, Num(off, f))
                o(A, q, "shape", n, EnumNum(52, "i", LFO))
                o(A, q, "synced", n, Bits(0, "I", 2))
                o(A, q, "retrig", n, Bits(0, "I", 0x20))
        else:
            self._f(A, P, "envelopes", lambda h: h.envelopes, None)
            self._f(A, P, "lfos", lambda h: h.lfos, None)

    # plugins -----------------------------------------------------------------
    def _plugin(self, P, by, g, iname, natives):
        o, A, d, w = self._o, "plugin", g(213), g(212)
        if d is None:
            self._f(A, P, "plugin", lambda h: h.plugin, None)
            return
        if iname == VST:
            cls = PLUGIN_CLASS[VST]
        elif iname in PLUGIN_CLASS:
            if iname not in natives:
                self._f(A, P, "plugin", lambda h: h.plugin, None)
                return
            cls = PLUGIN_CLASS[iname]
        else:
            cls = "_PluginBase"
        if cls == "_PluginBase":
            self._f(A, P, "plugin", lambda h: h.plugin is not None and type(h.plugin).__name__ not in PLUGIN_CLASS.values(), True)
        else:
            self._f(A, P, "plugin", lambda h: type(h.plugin).__name__, cls)
        q = P + ((".", "plugin"),)
        for attr, m in WRAPPER_BITS.items():
            o(A, q, attr, w, Bits(16, "I", m))
        o(A, q, "page", w, EnumNum(20, "B", PAGES))
        own = {}
        if iname in natives:
            own = native_fields(iname, len(self.flp.events[d][1]))
        if "width" not in own:
            o(A, q, "width", w, Num(44, "I"))
        if "height" not in own:
            o(A, q, "height", w, Num(48, "I"))
        for attr, c in own.items():
            o(A, q, attr, d, c)
        if iname == VST:
            for (sec, attr), c in VST_OPTIONS.items():
                o(A, q + (((".", sec),) if sec else ()), attr, d, c, rec=True)

    # patterns ----------------------------------------------------------------
    def _patterns(self):
        ev = self.flp.events
        pats, cur, arr = {}, None, False
        for n, (i, p) in enumerate(ev):
            if i == 99:
                arr = True
            if i == 65:
                cur = struct.unpack("<H", p)[0]
                pats.setdefault(cur, [])
            if cur is not None and (i in PATTERN_IDS or (i in MARKER_IDS and not arr)):
                pats[cur].append(n)
        self.patterns = list(pats.items())
        iids = list(pats)
        self._f("patterns", (PA,), "IDs in order", lambda h: [x.iid for x in h], iids)
        if iids:
            self._f("patterns", (PA,), "len", len, len(iids))
        if 67 in self.first:
            sel = struct.unpack("<H", ev[self.first[67]][1])[0]
            self._f("patterns", (PA,), "current", lambda h: h.current.iid if h.current is not None else None, sel if sel in iids else None)
            if sel in iids:
                self._alias((PA, ("#", iids.index(sel))), (PA, (".", "current")))
        else:
            self._f("patterns", (PA,), "current", lambda h: h.current, None)
        o = self._o
        for k, (iid, idxs) in enumerate(self.patterns):
            P = (PA, ("#", k))
            self._alias(P, (PA, ("@", k)))
            self._alias(P, (PA, ("s", k)))
            by = {}
            for n in idxs:
                by.setdefault(ev[n][0], []).append(n)
            g = lambda i: by[i][0] if i in by else None
            A = "pattern"
            self.obs.append(PatternIID(P, by[65]))
            o(A, P, "color", g(150), Color(0))
            o(A, P, "length", g(164), Num(0, "I"))
            o(A, P, "looped", g(26), Flag8(0), default=False)
            o(A, P, "name", g(193), self._text())
            # all parts together, in stored order
            notes = [(n, 24 * j) for n in by.get(224, ()) for j in range(len(ev[n][1]) // 24)]
            ctrls = [(n, 12 * j) for n in by.get(223, ()) for j in range(len(ev[n][1]) // 12)]
            nn, nc = len(notes), len(ctrls)
            self._f(A, P, "number of notes", lambda h: len([x for x in h.notes]), nn)
            self._f(A, P, "number of controllers", lambda h: len([x for x in h.controllers]), nc)
            for j, (at, b) in enumerate(notes):
                q = P + ((".", "notes"), ("#", j))
                for attr, off, f in (("position", 0, "I"), ("rack_channel", 6, "H"), ("length", 8, "I"), ("group", 14, "H"),
                                     ("fine_pitch", 16, "B"), ("release", 18, "B"), ("midi_channel", 19, "B"), ("pan", 20, "B"),
                                     ("velocity", 21, "B"), ("mod_x", 22, "B"), ("mod_y", 23, "B")):
                    o("note", q, attr, at, Num(b + off, f))
                o("note", q, "key", at, Key(b + 12))
                o("note", q, "slide", at, Bits(b + 4, "H", 8))
            for j, (at, b) in enumerate(ctrls):
                q = P + ((".", "controllers"), ("#", j))
                o("controller", q, "position", at, Num(b, "I"))
                o("controller", q, "channel", at, Num(b + 6, "B"))
                o("controller", q, "value", at, F32(b + 8))
            self._markers("pattern", P, by)

    def _markers(self, area, P, by):
        ms = list(itertools.zip_longest(by.get(148, []), by.get(33, []), by.get(34, []), by.get(205, [])))
        self._f(area, P, "number of timemarkers", lambda h: len([x for x in h.timemarkers]), len(ms))
        for j, (pos, num, den, name) in enumerate(ms):
            q = P + ((".", "timemarkers"), ("#", j))
            self._o("marker/" + area, q, "position", pos, Marker("position"), mode="ro")
            self._o("marker/" + area, q, "type", pos, Marker("type"), mode="ro")
            self._o("marker/" + area, q, "numerator", num, Num(0, "B"))
            self._o("marker/" + area, q, "denominator", den, Num(0, "B"))
            self._o("marker/" + area, q, "name", name, self._text())

    # arrangements ------------------------------------------------------------
    def _arrangements(self):
        ev = self.flp.events
        arrs, cur = [], None
        for n, (i, p) in enumerate(ev):
            if i == 99:
                cur = []
                arrs.append(cur)
            if i == 100:
                cur = None
            if cur is not None and i in (99, 233, 238, 239, 241, 33, 34, 148, 205):
                cur.append(n)
        self.arrs = arrs
        top = 499 if tuple(self.version[:3]) >= (12, 9, 1) else 198
        self._f("arrs", (AR,), "max_tracks", lambda h: h.max_tracks, top + 1)
        if not arrs:
            return
        self._f("arrs", (AR,), "len", len, len(arrs))
        self._f("arrs", (AR,), "number iterated", lambda h: len([x for x in h]), len(arrs))
        if 100 in self.first:
            sel = struct.unpack("<H", ev[self.first[100]][1])[0]
            if sel < len(arrs):
                self._alias((AR, ("#", sel)), (AR, (".", "current")))
                self._f("arrs", (AR,), "current", lambda h: h.current.iid, struct.unpack("<H", ev[arrs[sel][0]][1])[0])
            else:
                self._f("arrs", (AR,), "current (which is none of them)", no_current, "not found")
        else:
            self._f("arrs", (AR,), "current", lambda h: h.current, None)
        o = self._o
        pat_iids = [i for i, _ in self.patterns]
        for k, idxs in enumerate(arrs):
            P = (AR, ("#", k))
            self._alias(P, (AR, ("@", k)))
            self._alias(P, (AR, ("s", k)))
            by, tracks = {}, []
            for n in idxs:
                by.setdefault(ev[n][0], []).append(n)
                if ev[n][0] == 238:
                    tracks.append([n, None])
                elif ev[n][0] == 239 and tracks:
                    tracks[-1][1] = n
            g = lambda i: by[i][0] if i in by else None
            A = "arr"
            o(A, P, "iid", g(99), Num(0, "H"))
            o(A, P, "name", g(241), self._text())
            self._markers("arr", P, by)
            T = P + ((".", "tracks"),)
            self._f(A, T, "number of tracks", lambda h: len([x for x in h]), len(tracks))
            pl = ev[g(233)][1] if 233 in by else b""
            size = playlist_size(pl)
            clips = {}
            for j in range(len(pl) // size):
                pos, base, idx, ln, rv = struct.unpack_from("<IHHIH", pl, j * size)
                clips.setdefault(top - rv, []).append((j, base, idx))
            for t, (d, nm) in enumerate(tracks):
                q = T + (("#", t),)
                A = "track"
                o(A, q, "iid", d, Num(0, "I"))
                o(A, q, "color", d, Color(4))
                o(A, q, "icon", d, Num(8, "I"))
                o(A, q, "enabled", d, Flag8(12))
                o(A, q, "height", d, Height(13))
                o(A, q, "content_locked", d, Flag8(21))
                o(A, q, "motion", d, EnumNum(22, "I", MOTION))
                o(A, q, "press", d, EnumNum(26, "I", PRESS))
                o(A, q, "trigger_sync", d, EnumNum(30, "I", SYNC))
                o(A, q, "queued", d, Flag32(34))
                o(A, q, "tolerant", d, Flag32(38))
                o(A, q, "position_sync", d, EnumNum(42, "I", SYNC))
                o(A, q, "grouped", d, Flag8(46))
                o(A, q, "locked", d, Flag8(47))
                o(A, q, "name", nm, self._text())
                mine = clips.get(t, [])
                self._f("clip", q, "number of clips", len, len(mine))
                self._f("clip", q, "clips iterated", lambda h: [c.position for c in h],
                        [struct.unpack_from("<I", pl, j * size)[0] for j, _, _ in mine])
                for m, (j, base, idx) in enumerate(mine):
                    r, b = q + (("#", m),), j * size
                    self._alias(r, q + (("@", m),))
                    A = "item"
                    o(A, r, "position", g(233), Num(b, "I"))
                    o(A, r, "length", g(233), Num(b + 8, "I"))
                    o(A, r, "group", g(233), Num(b + 14, "H"))
                    o(A, r, "offsets", g(233), Offsets(b + 24))
                    if idx <= base:
                        self._f("clip", r, "channel", lambda h: (type(h).__name__, h.channel.iid), ("ChannelPLItem", idx))
                        kp = (CH, ("#", self.ch_by_iid[idx]))
                        self._alias(kp, r + ((".", "channel"),))
                        self.obs.append(ClipTarget(r, "channel", g(233), b + 6, 0, self))
                    else:
                        self._f("clip", r, "pattern", lambda h: (type(h).__name__, h.pattern.iid), ("PatternPLItem", idx - base))
                        kp = (PA, ("#", pat_iids.index(idx - base)))
                        self._alias(kp, r + ((".", "pattern"),))
                        self.obs.append(ClipTarget(r, "pattern", g(233), b + 6, base, self))

    # mixer -------------------------------------------------------------------
    def _mixer(self):
        ev = self.flp.events
        inserts, cur, begun = [], [], False
        for n, (i, p) in enumerate(ev):
            if i in INSERT_IDS or i in (98, 29, 225):
                begun = True
            if begun and (i in INSERT_IDS or i == 98 or i in PLUGIN_IDS):
                cur.append(n)
                if i == 147:
                    inserts.append(cur)
                    cur = []
        self.inserts = inserts
        self._f("mixer", (MX,), "inserts iterated", lambda h: [x.iid for x in h], list(range(-1, len(inserts) - 1)))
        if inserts:
            self._f("mixer", (MX,), "len", len, len(inserts))
        if tuple(self.version[:3]) > (12, 9, 0):
            self._f("mixer", (MX,), "limits", lambda h: (h.max_inserts, h.max_slots), (127, 10))
        params = {}
        pe = self.first.get(225)
        if pe is not None:
            pl = ev[pe][1]
            for j in range(len(pl) // 12):
                pid, _, cd = struct.unpack_from("<BBH", pl, 12 * j + 4)
                ins, slot = cd >> 6 & 0x7F, cd & 0x3F
                params[(ins, slot if pid in (0, 1) else None, pid)] = j
        o = self._o
        num = lambda j: (pe, Num(12 * j + 8, "i")) if j is not None else (None, Num(0, "i"))
        for k, idxs in enumerate(inserts):
            P = (MX, ("#", k))
            self._alias(P, (MX, ("@", k - 1)))
            self._alias(P, (MX, ("s", k)))
            by, slots, cur = {}, [], []
            for n in idxs:
                i = ev[n][0]
                by.setdefault(i, []).append(n)
                if i in PLUGIN_IDS or i == 98:
                    cur.append(n)
                    if i == 98:
                        slots.append(cur)
                        cur = []
            g = lambda i: by[i][0] if i in by else None
            A = "insert"
            o(A, P, "color", g(149), Color(0))
            o(A, P, "icon", g(95), Num(0, "h"))
            o(A, P, "name", g(204), self._text())
            o(A, P, "input", g(154), Num(0, "i"))
            o(A, P, "output", g(147), Num(0, "i"))
            for attr, m, inv in (("polarity_reversed", 1, 0), ("channels_swapped", 2, 0), ("bypassed", 4, 1), ("enabled", 8, 0),
                                 ("separator_shown", 0x400, 0), ("locked", 0x800, 0), ("is_solo", 0x1000, 0)):
                o(A, P, attr, g(236), Bits(4, "I", m, bool(inv)))
            o(A, P, "dock", g(236), Dock(4, "I", 0), mode="ro")
            for attr, pid in (("volume", 192), ("pan", 193), ("stereo_separation", 194)):
                e, c = num(params.get((k, None, pid)))
                o(A, P, attr, e, c)
            for b, band in enumerate(("low", "mid", "high")):
                for attr, base in (("gain", 208), ("freq", 216), ("reso", 224)):
                    e, c = num(params.get((k, None, base + b)))
                    o("eq", P + ((".", "eq"), (".", band)), attr, e, c)
            re_ = g(235)
            if re_ is None:
                self._f(A, P, "routes", lambda h: list(h.routes), [])
            else:
                flags = ev[re_][1]
                sends = [(pid, j) for (n, _, pid), j in params.items() if n == k and 64 <= pid < 192]
                levels = [struct.unpack_from("<i", ev[pe][1], 12 * j + 8)[0]
                          for pid, j in sends if pid - 64 < len(flags) and flags[pid - 64]]
                if sends == sorted(sends):
                    self._f(A, P, "routes", lambda h: list(h.routes), levels)
                else:
                    self._f(A, P, "routes", lambda h: sorted(h.routes), sorted(levels))
            self._f(A, P, "number of slots", lambda h: (len(h), len([x for x in h])), (len(slots), len(slots)))
            for s, sidx in enumerate(slots):
                q = P + (("#", s),)
                self._alias(q, P + (("@", s),))
                self._alias(q, P + (("s", s),))
                sb = {}
                for n in sidx:
                    sb.setdefault(ev[n][0], []).append(n)
                sg = lambda i: sb[i][0] if i in sb else None
                A2 = "slot"
                o(A2, q, "index", sg(98), Num(0, "H"))
                o(A2, q, "iid", sg(98), Num(0, "H"))
                o(A2, q, "color", sg(128), Color(0))
                o(A2, q, "icon", sg(155), Num(0, "I"))
                o(A2, q, "name", sg(203), self._text())
                o(A2, q, "internal_name", sg(201), self._text(), structural=True)
                e, c = num(params.get((k, s, 0)))
                o(A2, q, "enabled", e, c)
                e, c = num(params.get((k, s, 1)))
                o(A2, q, "mix", e, c)
                iname = ev[sg(201)][1].decode(self.enc).rstrip("\0") if 201 in sb else None
                self._plugin(q, sb, sg, iname, NATIVE_EFFECTS)
        # names by which inserts and slots can be looked up: computed on demand


class PatternIID(Obs):
    """A pattern's ID is stored once per place where its data is."""

    __slots__ = ("evs",)

    def __init__(self, path, evs):
        super().__init__("pattern", path, "iid", evs[0], Num(0, "H"), structural=True)
        self.evs = evs

    def write(self, flp, v):
        for n in self.evs:
            flp.events[n] = (65, struct.pack("<H", v))


class ClipTarget(Obs):
    """The channel or pattern of a clip; the value is its ID."""

    __slots__ = ("off", "base", "model")

    def __init__(self, path, attr, ev, off, base, model):
        super().__init__("target", path, attr, ev, TargetCodec())
        self.off, self.base, self.model = off, base, model

    def want(self, flp):
        return struct.unpack_from("<H", flp.events[self.ev][1], self.off)[0] - self.base

    def write(self, flp, v):
        i, p = flp.events[self.ev]
        b = bytearray(p)
        struct.pack_into("<H", b, self.off, v + self.base)
        flp.events[self.ev] = (i, bytes(b))

    def rand(self, rng, flp):
        base = struct.unpack_from("<H", flp.events[self.ev][1], self.off - 2)[0]
        if self.attr == "channel":
            return rng.choice([i for i in sorted(self.model.ch_by_iid) if i <= base])
        return rng.choice([i for i, _ in self.model.patterns if i + base <= 65535])


class TargetCodec(Codec):
    def same(self, got, want):
        return got is not None and got.iid == want


def playlist_size(p):
    """32 bytes per clip before FL 21, 60 since; the marker at 4 tells them apart."""
    if len(p) % 60 == 0 and len(p) % 32 == 0:
        return 60 if any(p[i : i + 2] != p[4:6] for i in range(4, len(p), 32)) else 32
    return 60 if len(p) % 60 == 0 else 32
