"""Seeded generator of well-formed FLP files, across versions and layouts.

Everything drawn here is within the documented layout of the format: payloads
are cut at field boundaries only, enums hold declared values, booleans are 0/1,
plugin data has a known size. Unknown bytes and unknown events are random.
"""

from __future__ import annotations

import struct

import flpfmt
import refmodel
from fields import (
    ALPHA, Color, EnumNum, F32, F64, Flag8, Flag32, Height, Licensee, LogNorm, Log2, Rec, Reverb, StrEnum, f32, rand_int,
    rand_text,
)
from flpfmt import Flp
from refmodel import NATIVE_EFFECTS, NATIVE_GENERATORS, VST, VST_OPTIONS, native_fields

VERSIONS = (
    (1, 5, 23), (3, 3, 4), (3, 5, 4), (4, 5, 2), (6, 0, 8), (9, 0, 3), (10, 0, 9), (11, 0, 0), (11, 1, 1),
    (11, 4, 9, 12), (11, 5, 0), (11, 5, 14), (11, 10, 0), (12, 0, 2), (12, 5, 1, 165), (12, 9, 0, 1), (12, 9, 1), (12, 9, 1, 4), (12, 10, 0),
    (20, 0, 0), (20, 1, 2, 887), (20, 8, 4, 2576), (20, 9, 2, 2963), (21, 0, 3, 3517), (24, 1, 1, 4234), (20, 8),
)
PARAM_CUTS = (9, 10, 11, 12, 40, 44, 48, 52, 56, 60, 61, 62, 63, 64, 66, 68, 76, 80, 81, 82, 83, 84, 88, 92, 96, 100,
              104, 108, 112, 133, 137, 141, 145, 148, 152, 157, 158)
ENVLFO_CUTS = tuple(range(4, 72, 4))
TRACK_CUTS = (4, 8, 12, 13, 17, 21, 22, 26, 30, 34, 38, 42, 46, 47, 48)
STRUCTS = {  # id: (cuts, codecs of constrained fields, may have a tail)
    215: (PARAM_CUTS, [Flag8(o) for o in (9, 11, 60, 62, 63, 80, 81, 157)]
          + [EnumNum(40, "I", refmodel.ARP), F32(52), F32(56), EnumNum(83, "B", refmodel.DECLICK), Log2(104),
             EnumNum(108, "i", refmodel.STRETCH), LogNorm(133), LogNorm(141)], True),
    209: ((4, 8, 12, 16, 20), [], True),
    218: (ENVLFO_CUTS, [EnumNum(52, "i", refmodel.LFO)], True),
    219: ((4, 8, 12, 16, 20, 24), [EnumNum(20, "I", refmodel.FILTER)], True),
    229: ((4, 8, 12, 16, 20), [], True),
    221: ((4, 8, 9), [], True),
    228: ((4, 8, 12, 16), [], True),
    212: ((16, 20, 21, 44, 48, 52), [EnumNum(20, "B", refmodel.PAGES)], True),
    238: (TRACK_CUTS, [Flag8(o) for o in (12, 21, 46, 47)] + [Height(13)] + [EnumNum(22, "I", refmodel.MOTION), EnumNum(26, "I", refmodel.PRESS),
          EnumNum(30, "I", refmodel.SYNC), Flag32(34), Flag32(38), EnumNum(42, "I", refmodel.SYNC)], True),
    236: ((4, 8, 12), [], True),
    217: ((8,), [], False),
}
KNOWN = frozenset(
    (0, 2, 3, 9, 10, 11, 12, 13, 15, 17, 18, 20, 21, 22, 23, 26, 28, 29, 30, 32, 33, 34, 64, 65, 66, 67, 69, 70, 71, 72, 73,
     74, 75, 76, 80, 83, 85, 86, 89, 93, 94, 95, 97, 98, 99, 100, 128, 131, 132, 133, 135, 138, 139, 140, 142, 143, 144,
     145, 146, 147, 148, 149, 150, 152, 153, 154, 155, 156, 159, 160, 161, 162, 164, 209, 212, 213, 215, 217, 218, 219,
     221, 223, 224, 225, 226, 227, 228, 229, 231, 233, 234, 235, 236, 237, 238, 239, 241)) | frozenset(range(192, 208))
UNKNOWN = [i for i in range(256) if i not in KNOWN]
UNKNOWN_BY = [[i for i in UNKNOWN if lo <= i < hi] for lo, hi in ((0, 64), (64, 128), (128, 192), (208, 256))]
CROWDS = ("channels", "patterns", "arrangements", "notes", "clips", "tracks", "points", "groups", "markers", "state", "inserts")
BOOLS = (0, 9, 10, 15, 20, 26, 28, 30, 32)


def rbytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 64 else rng.getrandbits(8 * n).to_bytes(n, "little")


def fill(rng, n, codecs):
    b = rbytes(rng, n)
    for c in codecs:
        if n >= c.off + c.size:
            if isinstance(c, EnumNum) and rng.random() < 0.05:  # a value added by a later version
                b = c.put(b, rng.choice((77, 100, 127)))
            else:
                b = c.enc(b, c.rand(rng, b))
    return b


class Gen:
    def __init__(self, rng, version=None, mode=None, channels=None, patterns=None, arrs=None, inserts=None, unknown=None,
                 cuts=None, tails=None, kinds=None, plugins=None, slots=None, big=False, crowd=None):
        self.rng = rng
        self.version = version or (rng.choice(VERSIONS[-8:]) if rng.random() < 0.5 else rng.choice(VERSIONS))
        self.enc = flpfmt.text_codec(self.version)
        self.mode = mode or rng.choice(("full", "full", "mixed", "sparse"))
        self.markless = None
        self.p = {"full": 1.0, "mixed": 0.75, "sparse": 0.35}[self.mode]
        r = lambda v, *c: v if v is not None else rng.choice(c)
        self.nch = r(channels, 0, 1, 2, 3, 4, 5, 7)
        self.npat = r(patterns, 0, 1, 2, 3, 4)
        self.narr = r(arrs, 0, 1, 1, 2, 3)
        self.nins = r(inserts, 0, 1, 2, 3, 4)
        # A mixer never has more inserts than the version which saved it knew of.
        for bound, most in (((1, 6, 5), 5), ((2, 0, 1), 8), ((3, 0, 0), 18), ((3, 3, 0), 20), ((4, 0, 0), 64), ((9, 0, 0), 105)):
            if tuple(self.version[:3]) <= bound:
                self.nins = min(self.nins, most)
                break
        self.nslots = slots
        self.unknown = r(unknown, 0.0, 0.05, 0.2)
        self.cuts = r(cuts, 0.0, 0.0, 0.15, 0.4)
        self.tails = r(tails, 0.0, 0.0, 0.3)
        self.kinds, self.plugins, self.big = kinds, plugins, big
        # Now and then there is a lot of something: more than fits a byte.
        self.crowd = crowd or (rng.choice(CROWDS) if rng.random() < 0.06 else None)
        if self.crowd == "channels" and self.nch:
            self.nch, self.p = rng.choice((130, 260, 300)), 0.2
        elif self.crowd == "patterns" and self.npat:
            self.npat, self.p = rng.choice((130, 260, 300)), 0.3
        elif self.crowd == "arrangements" and self.narr:
            self.narr = rng.choice((12, 40))
        elif self.crowd == "inserts" and self.nins:  # as many as the version had
            v = tuple(self.version[:3])
            most = [n for bound, n in (((1, 6, 5), 5), ((2, 0, 1), 8), ((3, 0, 0), 18), ((3, 3, 0), 20), ((4, 0, 0), 64), ((9, 0, 0), 105), ((12, 9, 0), 127)) if v >= bound]
            self.nins, self.p = (most or [4])[-1], 0.3
        self.ev = []

    # values ------------------------------------------------------------------
    def has(self, p=None):
        return self.rng.random() < (self.p if p is None else p)

    def text(self, maxlen=40):
        return (rand_text(self.rng, self.enc, maxlen if not self.big else None) + "\0").encode(self.enc)

    def raw_text(self, s):
        return (s + "\0").encode(self.enc)

    def num(self, n):
        r = self.rng
        if r.random() < 0.5:
            return rbytes(r, n)
        return min(r.choice((0, 1, 2, 63, 127, 128, 255, 256, 6400, 12800, r.randrange(1 << 16))), 256**n - 1).to_bytes(n, "little")

    def flag(self):
        return bytes((self.rng.getrandbits(1),))

    def struct(self, id_, full=False):
        cuts, codecs, tail = STRUCTS[id_]
        n = cuts[-1]
        if not full:
            if self.has(self.cuts):
                n = self.rng.choice(cuts)
            elif tail and self.has(self.tails):
                n += self.rng.randint(1, 20)
        return fill(self.rng, n, codecs)

    def add(self, id_, payload):
        r = self.rng
        self.ev.append((id_, payload))
        while self.unknown and r.random() < self.unknown:
            i = r.choice(r.choice(UNKNOWN_BY))
            n = flpfmt.fixed_size(i)
            self.ev.append((i, rbytes(r, n if n is not None else r.choice((0, 1, 4, 20, r.randrange(40))))))

    def maybe(self, id_, make):
        if self.has():
            self.add(id_, make())

    # parts -------------------------------------------------------------------
    def build(self):
        r = self.rng
        if r.random() < 0.05:
            i = r.choice(UNKNOWN_BY[0])
            self.ev.append((i, rbytes(r, 1)))
        self.add(199, (".".join(map(str, self.version)) + "\0").encode("ascii"))
        self.project()
        self.rack()
        if self.narr:
            self.arrangements()
        self.mixer()
        return Flp(r.choice(flpfmt.FORMATS) if r.random() < 0.5 else 0, r.choice((0, 1, self.nch, self.nch, r.randrange(65536))),
                   r.choice(flpfmt.PPQS), self.ev)

    def project(self):
        r, v = self.rng, self.version
        if len(v) == 4 and self.has():
            self.add(159, struct.pack("<I", v[3]))
        items = []
        m = lambda i, f: items.append((i, f)) if self.has() else None
        m(28, self.flag)
        lic = Licensee(self.enc)
        m(200, lambda: lic.enc(b"", lic.rand(r, b"")))
        lo, hi = 10, (999 if (1, 4, 2) <= tuple(v[:3]) < (11, 0, 0) else 522)
        ms = r.randint(lo * 1000, hi * 1000)
        if tuple(v) < (3, 4, 0):
            m(66, lambda: struct.pack("<H", ms // 1000))
        elif r.random() < 0.6:
            m(156, lambda: struct.pack("<I", ms))
        elif self.has():
            if r.random() < 0.9:
                items.append((66, lambda: struct.pack("<H", ms // 1000)))
            m(93, lambda: struct.pack("<H", ms % 1000))
        m(9, self.flag)
        m(10, self.flag)
        m(12, lambda: self.num(1))
        m(11, lambda: self.num(1))
        m(13, lambda: self.num(1))
        m(133, lambda: self.num(4))
        m(80, lambda: self.num(2))
        m(17, lambda: self.num(1))
        m(18, lambda: self.num(1))
        if r.random() < 0.6:
            m(217, lambda: self.struct(217))
        else:
            m(152, lambda: rbytes(r, 4))
        m(23, lambda: bytes((r.choice((0, 2)),)))
        m(30, self.flag)
        m(194, self.text)
        m(206, self.text)
        m(207, self.text)
        m(202, lambda: self.raw_text(r.choice(("", "C:\\Data\\x", "/home/a b/c", "songs"))))
        for i in r.choice(((195,),) * 6 + ((198,),) * 3 + ((195, 198), (198, 195))):
            m(i, self.text)
        m(197, self.text)
        m(237, lambda: struct.pack("<dd", r.choice((44000.5, r.uniform(30000, 60000), float(r.randint(36000, 48000)))), r.choice((0.0, r.uniform(0, 100)))))
        if r.random() < 0.5:
            r.shuffle(items)
        for i, f in items:
            self.add(i, f())

    # channels and patterns are interleaved
    def rack(self):
        r = self.rng
        self.groups = r.choice((0, 1, 2, 3)) if self.nch else r.choice((0, 1))
        if self.crowd == "groups":
            self.groups = r.choice((20, 130, 260))
        for _ in range(self.groups):
            self.add(231, self.text(12))
        if self.has():
            self.add(146, struct.pack("<i", r.choice((-1, 0, 1, 5))))
        n = self.nch
        iids = list(range(n))
        k = r.random()
        if k < 0.15:
            r.shuffle(iids)
        elif k < 0.3:
            iids = r.sample(range(r.choice((300, 5000, 65536 - n)) + n), n)
        if 1 < n <= 8 and r.random() < 0.1:  # alike but for a bit
            iids = [iids[0] & 0xFF | b for b in r.sample([0] + [1 << k for k in range(8, 16)], n)]
        self.iids = iids
        self.pats = r.sample(range(1, r.choice((1000, 1000, 5000, 65536))), self.npat) if r.random() < 0.3 else list(range(1, self.npat + 1))
        if r.random() < 0.2:
            r.shuffle(self.pats)
        if 1 < self.npat <= 8 and r.random() < 0.1:  # alike but for a bit
            self.pats = [(self.pats[0] & 0xFF or 1) | b for b in r.sample([0] + [1 << k for k in range(8, 16)], self.npat)]
        chunks = []  # pattern parts, in order
        first, second = [], []
        for p in self.pats:
            shape = r.random()
            if shape < 0.5:  # data first, the rest later (as FL does)
                first.append((p, "data"))
                second.append((p, "info"))
            elif shape < 0.75:
                second.append((p, "all"))
            elif shape < 0.85:
                first.append((p, "all"))
            elif shape < 0.95:  # notes in several places
                first.append((p, "data"))
                second.append((p, r.choice(("all", "data"))))
                second.insert(r.randrange(len(second) + 1), (p, r.choice(("data", "name", "info"))))
            else:
                first.append((p, "data"))
                second.append((p, "name"))
                second.append((p, "rest"))
        if r.random() < 0.4:
            r.shuffle(second)
        if r.random() < 0.4:
            r.shuffle(first)
        if self.has(0.8):
            self.add(67, struct.pack("<H", r.choice(self.pats + [7777]) if self.pats and r.random() < 0.9 else r.choice((0, 1, 7777))))
        chans = [("ch", k) for k in range(n)]
        spot = r.random()
        if spot < 0.5:
            seq = first + chans[:1] + second + chans[1:]
        elif spot < 0.7:
            seq = first + second + chans
        elif spot < 0.85:
            seq = chans + first + second
        else:
            seq, a, b = [], first + second, chans
            while a or b:
                src = a if a and (not b or r.random() < 0.5) else b
                seq.append(src.pop(0))
        for what in seq:
            if what[0] == "ch":
                self.channel(what[1])
            else:
                self.pattern(*what)

    def pattern(self, iid, part):
        r = self.rng
        self.add(65, struct.pack("<H", iid))
        items = []
        m = lambda i, f, p=None: items.append((i, f)) if self.has(p) else None
        if part in ("all", "data"):
            m(224, self.notes)
            m(223, self.controllers, self.p * 0.6)
        if part in ("all", "info", "name"):
            m(193, lambda: self.text(20))
        if part in ("all", "info", "rest"):
            m(150, lambda: rbytes(r, 4))
            if self.has(0.5):
                items.append((157, lambda: b"\xff" * 4))
                items.append((158, lambda: b"\xff" * 4))
            m(164, lambda: self.num(4))
            m(26, self.flag, 0.4)
        if r.random() < 0.3:
            r.shuffle(items)
        for i, f in items:
            self.add(i, f())
        if part in ("all", "info", "rest") and r.random() < 0.5:
            for _ in range(r.randint(1, 4) if self.crowd != "markers" else r.choice((20, 130, 260))):
                self.marker()

    def marker(self):
        r = self.rng
        pos = r.choice((0, 96, r.randrange(1 << 20), 0x8000000 - 1)) + (0x8000000 if r.random() < 0.5 else 0)
        order = [(148, struct.pack("<I", pos)), (33, self.num(1)), (34, self.num(1)), (205, self.text(10))]
        if self.markless is None:  # what no marker of this file has
            self.markless = r.sample((148, 33, 34, 205), r.choice((1, 1, 2, 3))) if self.mode != "full" and r.random() < 0.4 else ()
        for i, p in order:
            if i not in self.markless:
                self.add(i, p)

    def notes(self):
        r = self.rng
        out = b""
        for _ in range(r.choice((0, 1, 2, 3, 5, 8)) if self.crowd != "notes" else r.choice((1, 100, 300, 300, 3000))):
            b = bytearray(rbytes(r, 24))
            struct.pack_into("<H", b, 12, r.randint(0, 131))
            out += bytes(b)
        return self.twins(out, 24)

    def twins(self, data, size):
        """Some records of a list are the same as others, maybe but for a byte."""
        r = self.rng
        recs = [data[k:k + size] for k in range(0, len(data), size)]
        if len(recs) > 1 and r.random() < 0.25:
            for k in range(1, len(recs)):
                if r.random() < 0.5:
                    recs[k] = r.choice(recs[:k])
        return b"".join(recs)

    def controllers(self):
        r = self.rng
        out = b""
        for _ in range(r.choice((0, 1, 2, 3, 5)) if self.crowd != "notes" else r.choice((1, 100, 300, 300, 3000))):
            out += rbytes(r, 8) + struct.pack("<f", f32(r.choice((0.0, 0.5, r.random(), r.uniform(-1e5, 1e5)))))
        return self.twins(out, 12)

    def channel(self, k):
        r = self.rng
        iid = self.iids[k]
        kind = r.choice(self.kinds or ("sampler", "sampler", "native", "instrument", "layer", "automation", "clip", "other"))
        self.add(64, struct.pack("<H", iid))
        typ = {"sampler": 0, "native": 2, "instrument": 4, "layer": 3, "automation": 5, "clip": r.choice((2, 4)), "other": 1}[kind]
        items = []
        m = lambda i, f, p=None: items.append((i, f)) if self.has(p) else None
        s = lambda i: m(i, lambda: self.struct(i))
        plug = []
        if kind in ("native", "instrument") and self.has(0.9):
            plug = self.plugin(NATIVE_GENERATORS, "chan")
        else:
            name = r.choice(("",) * 9 + (" ",)) if kind == "clip" or r.random() < 0.7 else "".join(r.choice(ALPHA) for _ in range(5))
            if kind == "clip" or self.has():
                plug.append((201, lambda: self.raw_text(name)))
            if self.has(0.8):
                plug.append((212, lambda: self.struct(212)))
        items += plug
        names = r.choice(((203,),) * 16 + ((192,), (192,), (192, 203), (203, 192)))
        for i in names:
            m(i, lambda: self.text(14))
        m(155, lambda: self.num(4))
        m(128, lambda: rbytes(r, 4))
        m(0, self.flag)
        s(209)
        m(138, lambda: rbytes(r, 4))
        m(139, lambda: Reverb(0, "type").put(b"\0" * 4, r.choice((0, 65536)) + r.randint(0, 256)))
        for i in (89, 97, 69, 86, 71, 83, 74, 75, 76, 85, 70):
            m(i, lambda: self.num(2))
        m(131, lambda: rbytes(r, 4))
        m(22, lambda: self.num(1))
        if kind == "layer":
            kids = [i for i in self.iids if r.random() < 0.6 and i != iid]
            if r.random() < 0.3:
                r.shuffle(kids)
            if kids and r.random() < 0.15:  # nothing forbids to list a child again
                kids.insert(r.randrange(len(kids) + 1), r.choice(kids))
            for c in kids:
                items.append((94, lambda c=c: struct.pack("<H", c)))
        lv = r.random()
        if lv < 0.75:
            s(219)
        elif lv < 0.85:
            m(72, lambda: self.num(2))
            m(73, lambda: self.num(2))
        else:
            m(2, lambda: self.num(1))
            m(3, lambda: self.num(1))
        s(229)
        s(221)
        s(215)
        m(132, lambda: rbytes(r, 4))
        m(144, lambda: self.num(4))
        if kind != "other" or r.random() < 0.5:
            m(145, lambda: struct.pack("<i", r.choice(list(range(self.groups)) * 3 + [self.groups, 50, -1, -2])))
        m(32, self.flag)
        for _ in range(r.choice((0, 2, 2, 2, 1))):
            if self.has():
                items.append((228, lambda: self.struct(228)))
        if kind == "automation" or r.random() < 0.05:
            m(234, self.automation)
        for _ in range(r.choice((0, 5, 5, 5, 3))):
            if self.p == 1 or r.random() < 0.8:
                items.append((218, lambda: self.struct(218)))
        m(143, lambda: self.num(4))
        m(20, self.flag)
        m(135, lambda: self.num(4), 0.5)
        m(142, lambda: self.num(4), 0.5)
        m(140, lambda: struct.pack("<f", f32(r.random())), 0.2)
        m(153, lambda: self.num(4), 0.4)
        m(15, self.flag, 0.2)
        if kind == "clip" or (kind == "sampler" and self.has()) or r.random() < 0.15:
            items.append((196, lambda: self.raw_text(r.choice(("", "%FLStudioFactoryData%\\a\\kick.wav", "/tmp/x.wav", "b.mp3", "C:\\x y\\k.wav", "../x.wav", ".hid", "a/.b",
                                                                  "%USERPROFILE%/k.wav", "%FLStudioUserData%\\k.wav", "~/k.wav", "d" * 200 + ".wav")))))
        if r.random() < 0.15:  # any order; the plugin's name stays before its data
            tail = [x for x in items if x not in plug]
            r.shuffle(tail)
            if r.random() < 0.5:
                items = plug + tail
            else:
                spots = sorted(r.randint(0, len(tail)) for _ in plug)
                items = tail
                for n, (k, x) in enumerate(zip(spots, plug)):
                    items.insert(k + n, x)
        self.add(21, bytes((typ,)))
        if r.random() < 0.04:  # nothing else of it is stored
            items = []
        for i, f in items:
            self.add(i, f())

    def automation(self):
        r = self.rng
        n = r.choice((0, 1, 2, 3, 6)) if self.crowd != "points" else r.choice((60, 300))
        head, out = rbytes(r, 17) + struct.pack("<I", n), b""
        for k in range(n):
            out += struct.pack("<ddf", 0.0 if not k and r.random() < 0.7 else r.choice((0.5, 1.0, r.uniform(0, 50))), r.choice((0.0, 1.0, r.random())), f32(r.uniform(-1, 1)))
            out += rbytes(r, 4)
        return head + self.twins(out, 24) + rbytes(r, r.choice((0, 3, 112)))

    def plugin(self, natives, where):
        """Events of a plugin: its name, window and data, in this order."""
        r = self.rng
        kind = r.choice(self.plugins or ("native", "native", "native", "vst", "vst", "unknown", "misplaced"))
        if kind == "vst":
            name, data = VST, lambda: self.vst()
        elif kind == "unknown":
            name, data = r.choice(("Sytrus", "Fruity Limiter", "3x Osc", "")), lambda: rbytes(r, r.choice((0, 4, 50, 200)))
            if r.random() < 0.3:  # almost one which is supported
                like = r.choice(natives + (VST,))
                name = r.choice((like.lower(), like.upper(), like.swapcase(), like + " 2", like + "2", " " + like, like + " ", like[:-1], like[1:],
                                 like.replace(" ", ""), like.replace(" ", "  "), like + "\n", like.replace("o", "0")))
                if name in NATIVE_GENERATORS + NATIVE_EFFECTS + (VST,):
                    name = "-" + name
                data = lambda: self.vst() if like == VST else self.native(like)
        else:
            pool = natives if kind == "native" else (NATIVE_EFFECTS if natives is NATIVE_GENERATORS else NATIVE_GENERATORS)
            name = r.choice(pool)
            data = lambda: self.native(name)
        out = [(201, lambda: self.raw_text(name))]
        if self.has(0.9):
            out.append((212, lambda: self.struct(212)))
        if self.has(0.95):
            out.append((213, data))
        return out

    def native(self, name):
        r = self.rng
        if name == "Fruity NoteBook 2":
            out = rbytes(r, 4) + self.num(4)
            for k in range(r.choice((0, 1, 3))):
                t = rand_text(r, "utf-16-le", 150).replace("\0", "")
                if self.has(0.15):  # a page's length takes more than two bytes
                    t = (t or "note") * (r.choice((64, 127, 128, 2047, 2048, 5000, 16383, 16384, 17000)) // len(t or "note") + 1)
                b = t.encode("utf-16-le")
                out += struct.pack("<i", k) + flpfmt.varint(len(b) // 2) + b
            return out + struct.pack("<i", -1) + self.flag()
        n = {"BooBass": (12, 16), "Fruit Kick": (32,), "Plucked!": (20,), "Fruity Balance": (8,), "Fruity Blood Overdrive": (32, 36),
             "Fruity Center": (4, 8), "Fruity Fast Dist": (20,), "Fruity Send": (16,), "Fruity Soft Clipper": (8,),
             "Fruity Stereo Enhancer": (24,), "Soundgoodizer": (8, 12)}[name]
        size = r.choice(n)
        if self.has(self.cuts):  # of an older version of the plugin
            size = 4 * r.randrange(size // 4)
        b = fill(r, size, [c for c in native_fields(name, size).values() if isinstance(c, (Flag32, StrEnum))])
        if size == n[0] and len(n) == 1 and self.has(self.tails):
            b += rbytes(r, r.randint(1, 12))
        return b

    def vst(self):
        r = self.rng
        recs = []
        ids = [1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56, 57]
        if r.random() < 0.3:
            ids = [i for i in ids if r.random() < 0.7]
        if r.random() < 0.2:
            r.shuffle(ids)
        for i in ids:
            if i == 1:
                n = r.choice((0, 4, 8, 12)) if self.has(self.cuts) else r.choice((12, 16, 20))
                d = rbytes(r, n)
            elif i == 2:
                n = r.choice((9, 13, 17, 22, 23)) if self.has(self.cuts) else r.choice((23, 24, 30))
                d = fill(r, n, [Flag8(22)])
            elif i in (51, 54, 55, 56):
                d = rand_text(r, "utf8", 30 if self.crowd != "state" else 300).encode("utf8")
            else:
                d = rbytes(r, r.choice((0, 4, 16, 60)) if self.crowd != "state" else r.choice((255, 256, 20000, 70000)))
            recs.append((i, d))
        if self.has(self.tails):  # records of newer versions
            for _ in range(r.choice((1, 1, 3))):
                recs.insert(r.randint(0, len(recs)), (r.choice((0, 3, 58, 99, 1000, 1 << 31)), rbytes(r, r.choice((0, 5)))))
        out = Rec.join(struct.pack("<I", r.choice((8, 10))), recs)
        if self.has(self.tails / 2):  # and something which is no record
            out += r.choice((rbytes(r, r.randint(1, 11)), struct.pack("<IQ", r.choice((1, 2, 54, 77)), r.choice((9, 1 << 40))) + rbytes(r, r.randrange(9))))
        return out

    def arrangements(self):
        r = self.rng
        top = 499 if tuple(self.version[:3]) >= (12, 9, 1) else 198
        for k in range(self.narr):
            self.add(99, struct.pack("<H", k if r.random() < 0.8 else r.randrange(100)))
            if r.random() < 0.06:  # nothing of it is stored
                continue
            if self.has():
                self.add(241, self.text(12))
            ntr = r.choice((0, 1, 2, 3, 5, 8)) if self.crowd != "tracks" else r.choice((60, 130, top + 1))
            later = None
            if self.has(0.9):
                later = (233, self.playlist(ntr, top))
                if r.random() < 0.8:
                    self.add(*later)
                    later = None
            if r.random() < 0.5:
                for _ in range(r.randint(0, 4) if self.crowd != "markers" else r.choice((20, 130, 260))):
                    self.marker()
            for t in range(ntr):
                self.add(238, self.track(t))
                if self.has(0.6):
                    self.add(239, self.text(10))
            if later:
                self.add(*later)
        if self.has(0.9):
            self.add(100, struct.pack("<H", r.randrange(self.narr) if r.random() < 0.95 else r.choice((self.narr, self.narr + 1, 65535))))

    def track(self, t):
        return self.struct(238)[:0] + (lambda b: struct.pack("<I", t + 1) + b[4:])(self.struct(238))

    def playlist(self, ntr, top):
        r = self.rng
        base = 20480 if r.random() < 0.8 else r.choice((20481, 16384 + 20000, 60000, max(self.iids + [0])))
        iids = [i for i in self.iids if i <= base]
        pats = [p for p in self.pats if base + p <= 65535]
        kinds = (["ch"] if iids else []) + (["pat"] if pats else [])
        if not ntr or not kinds:
            return b""
        n = r.choice((0, 1, 2, 3, 6, 8, 15, 16)) if r.random() < 0.9 else r.choice((30, 7, 24))
        if self.crowd == "clips":
            n = r.choice((100, 300, 300, 2500))
        new = tuple(self.version[:1]) >= (21,)
        if r.random() < 0.1:
            new = not new
        out = b""
        for _ in range(n):
            idx = r.choice(iids) if r.choice(kinds) == "ch" else base + r.choice(pats)
            out += struct.pack("<IHHIHH", r.choice((0, 384, r.randrange(1 << 32))), base, idx, r.randrange(1 << 32),
                               top - r.randrange(ntr), r.randrange(65536))
            out += rbytes(r, 8) + struct.pack("<ff", f32(r.choice((-1.0, 0.0, r.uniform(0, 100)))), f32(r.choice((-1.0, 0.0, r.uniform(0, 100)))))
            if new:
                out += rbytes(r, 28) if n % 8 == 0 or r.random() < (0.8 if n > 1 else 0.4) else struct.pack("<H", base) * 14
        return self.twins(out, 60 if new else 32)

    def mixer(self):
        r = self.rng
        if self.has():
            self.add(29, bytes((r.getrandbits(1),)))
        params = None
        if self.has(0.95):
            params = self.params()
        if params is not None and r.random() < 0.1:
            self.add(225, params)
            params = None
        for k in range(self.nins):
            if self.has(0.6 * self.p):
                self.add(149, rbytes(r, 4))
            if self.has(0.4):
                self.add(95, self.num(2))
            if self.has(0.8 * self.p):
                self.add(204, self.text(12))
            self.add(236, self.struct(236))
            for s in range(self.slots_of[k]):
                if r.random() < 0.45:
                    for i, f in self.plugin(NATIVE_EFFECTS, "slot")[: 3]:
                        if i == 213:
                            if self.has(0.6):
                                self.add(203, self.text(12))
                            self.maybe(155, lambda: self.num(4))
                            self.maybe(128, lambda: rbytes(r, 4))
                        self.add(i, f())
                self.add(98, struct.pack("<H", s))
            if self.has(0.9):
                self.add(235, bytes(r.getrandbits(1) for _ in range(r.choice((0, 1, 4, 127, 127, 160)))))
            if self.has(0.95):
                self.add(154, struct.pack("<i", r.choice((-1, 0, 3, r.randint(-(1 << 31), (1 << 31) - 1)))))
            self.add(147, struct.pack("<i", r.choice((-1, 0, 3, r.randint(-(1 << 31), (1 << 31) - 1)))))
        if params is not None:
            self.add(225, params)

    def params(self):
        r = self.rng
        self.slots_of = [self.nslots if self.nslots is not None else r.choice((0, 1, 2, 3, 10)) for _ in range(self.nins)]
        keys = []
        for k in range(self.nins + r.choice((0, 0, 1, 3))):
            n = self.slots_of[k] if k < self.nins else 1
            keys += [(k, s, i) for s in range(n) for i in (0, 1)]
            keys += [(k, 0, i) for i in (192, 193, 194, 208, 209, 210, 216, 217, 218, 224, 225, 226)]
            keys += [(k, 0, i) for i in r.choice(((), (64, 65), (64, 66, 127, 128, 190, 191), (164, 165, 166, 167, 168), range(64, 64 + r.choice((10, 127, 128)) if self.nins < 20 else 64)))]
        if self.p < 1:
            keys = [x for x in keys if self.has(0.5 + self.p / 2)]
        if r.random() < 0.3:
            r.shuffle(keys)
        out = b""
        for k, s, i in keys:
            v = r.choice((0, 1, 6400, 12800, r.randint(-6400, 12800), r.randint(-(1 << 31), (1 << 31) - 1)))
            out += rbytes(r, 4) + struct.pack("<BBHi", i, r.getrandbits(8), k << 6 | s, v)
        return out


def make(rng, **kw):
    g = Gen(rng, **kw)
    g.slots_of = [rng.choice((0, 1, 2, 3, 10)) for _ in range(g.nins)] if kw.get("slots") is None else [kw["slots"]] * g.nins
    flp = g.build()
    if rng.random() < 0.2:
        repeat(rng, flp.events)
    return flp


def repeat(rng, events):
    """Things which are stored the same several times (as defaults are)."""
    seen, name = {}, None
    for n, (i, p) in enumerate(events):
        if i == 201:
            name = p
        key = (i, name) if i == 213 else i
        if i in (215, 209, 218, 219, 229, 221, 228, 212, 236, 213, 238, 224, 223, 234, 203, 193, 128, 150, 138, 139, 131) and key in seen and rng.random() < 0.6:
            old = rng.choice(seen[key])
            p = p[:4] + old[4:] if i == 238 else old
            events[n] = (i, p)
        seen.setdefault(key, []).append(p)


def stream(rng):
    """A file whose events come in no meaningful order, of any ID."""
    g = Gen(rng, mode="full", unknown=0.0)
    g.iids, g.pats, g.groups, g.slots_of = [0, 1], [1, 2], 1, []
    g.nins = 0
    g.add(199, (".".join(map(str, g.version)) + "\0").encode("ascii"))
    for _ in range(rng.choice((1, 5, 20, 60))):
        g.add(*any_event(g, rng.randrange(256)))
    return Flp(rng.choice(flpfmt.FORMATS), rng.randrange(65536), rng.choice(flpfmt.PPQS), g.ev)


ANY_SIZE = (208, 209, 210, 211, 212, 214, 215, 217, 218, 219, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 232, 233, 235, 236, 238, 240,
            242, 250, 255)


def odd(rng):
    """Events with any amount of data, cut anywhere or followed by more, and of
    unusual sizes; whether it makes sense or not."""
    g = Gen(rng, mode="full", unknown=0.0)
    ev = [(199, (".".join(map(str, g.version)) + "\0").encode("ascii"))]
    shape = rng.random()
    if shape < 0.1:  # lengths of three bytes, and of four
        i = rng.choice((210, 214, 240, 255, 209, 236, 224))
        n = rng.choice((16383, 16384, 16385, 2097151, 2097152, 2097153, 70000))
        ev.append((i, bytes(rng.getrandbits(8) for _ in range(64)) * (n // 64) + bytes(n % 64)))
        if i == 224:  # notes of valid keys
            ev[-1] = (224, (struct.pack("<IHHIHH", 0, 0, 0, 48, 60, 0) + bytes(8)) * (n // 24 // 20))
    elif shape < 0.2:  # many events
        some = [any_event_simple(rng) for _ in range(40)]
        ev += some * rng.choice((3, 7, 60, 1700))
    for _ in range(rng.choice((1, 5, 20))):
        i = rng.choice(ANY_SIZE)
        n = rng.choice((0, 1, 2, 3, 4, rng.randrange(20), rng.randrange(70), rng.randrange(200)))
        p = rbytes(rng, n)
        if i == 215:  # holds numbers of which some have no meaning
            p = fill(rng, 200, STRUCTS[215][1])[: rng.choice(PARAM_CUTS) + rng.choice((0, 1, 2, 3))]
        ev.append((i, p))
    return Flp(rng.choice(flpfmt.FORMATS), rng.randrange(65536), rng.choice(flpfmt.PPQS), ev)


def any_event_simple(rng):
    i = rng.choice([x for x in range(1, 256) if x not in BOOLS and x not in flpfmt.TEXT_IDS and (x < 192 or x in (210, 214, 240, 255))])
    n = flpfmt.fixed_size(i)
    return i, rbytes(rng, n if n is not None else rng.randrange(6))


def any_event(g, i):
    rng = g.rng
    if i == 199:
        i = 37
    n = flpfmt.fixed_size(i)
    if i in BOOLS:
        return i, g.flag()
    if i == 140:
        return i, struct.pack("<f", f32(rng.uniform(-10, 10)))
    if n is not None:
        return i, rbytes(rng, n)
    if i in flpfmt.TEXT_IDS:
        return i, g.text()
    if i in STRUCTS:
        return i, g.struct(i)
    if i == 224:
        return i, g.notes()
    if i == 223:
        return i, g.controllers()
    if i == 234:
        return i, g.automation()
    if i == 233:
        return i, g.playlist(3, 499)
    if i == 225:
        return i, g.params()
    if i == 235:
        return i, bytes(rng.getrandbits(1) for _ in range(rng.choice((0, 1, 127))))
    if i == 237:
        return i, struct.pack("<dd", 44000.25, 0.5)
    if i in (226, 227):
        return i, rbytes(rng, 20)
    if i == 213:
        i = 214  # the meaning of plugin data depends on the name before it
    return i, rbytes(rng, rng.choice((0, 1, 127, 128, 129, rng.randrange(300))) if not g.big else rng.choice((16383, 16384)))
