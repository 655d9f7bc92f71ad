"""Codecs of single settings: what bytes of an event payload denote.

Written from the FLP layout, independent of PyFLP's own structs. ``dec`` gives
the value of a payload (``ABSENT`` if the payload ends before the field), ``enc``
the payload after storing a value; ``rand`` draws a representable value, ``bad``
lists values which the field cannot represent.
"""

from __future__ import annotations

import math
import pathlib
import struct


class _Absent:
    def __repr__(self):
        return "ABSENT"


ABSENT = _Absent()
RANGES = {
    "B": (0, 0xFF), "b": (-0x80, 0x7F), "H": (0, 0xFFFF), "h": (-0x8000, 0x7FFF),
    "I": (0, 0xFFFFFFFF), "i": (-0x80000000, 0x7FFFFFFF),
}


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


CLOSE = [0.15]  # how often a value close to the stored one is made up


def neighbour(rng, fmt, v):
    """The next or previous floating point number."""
    ifmt = {"f": "<i", "d": "<q"}[fmt]
    n = struct.unpack(ifmt, struct.pack("<" + fmt, v))[0] + rng.choice((1, -1))
    try:
        w = struct.unpack("<" + fmt, struct.pack(ifmt, n))[0]
    except struct.error:
        return v
    return w if abs(w) < 1e38 else v


class Codec:
    text = False

    def same(self, got, want):
        return got == want

    def arg(self, cur, v):
        return v

    def bad(self, rng, cur):
        return []

    def rand(self, rng, p):
        raise NotImplementedError


class Field(Codec):
    fmt = ""

    def __init__(self, off, fmt=None):
        self.off = off
        if fmt:
            self.fmt = fmt
        self.size = struct.calcsize("<" + self.fmt)

    def raw(self, p):
        if len(p) < self.off + self.size:
            return ABSENT
        r = struct.unpack_from("<" + self.fmt, p, self.off)
        return r if len(r) > 1 else r[0]

    def put(self, p, *raw):
        b = bytearray(p)
        struct.pack_into("<" + self.fmt, b, self.off, *raw)
        return bytes(b)

    def dec(self, p):
        return self.raw(p)

    def enc(self, p, v):
        return self.put(p, v)


# limits and defaults which the documentation mentions
DOCUMENTED = (-6400, -1800, -1200, -900, -600, -512, -256, -128, -101, -100, -96, -64, -50, 2, 10, 12, 16, 25, 32, 48, 50, 60, 64, 96, 100,
              120, 125, 192, 240, 320, 400, 450, 500, 512, 600, 640, 656, 820, 1000, 1024, 1200, 1447, 1500, 1800, 2048, 3600, 4096, 5000,
              5777, 8000, 10000, 16000, 17500, 20000, 25600, 30000, 32950, 33145, 55825, 0x485156, 1072693248)


def rand_int(rng, lo, hi):
    k = rng.random()
    if k < 0.15:
        return rng.choice((lo, hi))
    if k < 0.45:
        return min(max(rng.randint(-300, 300), lo), hi)
    if k < 0.55:
        return min(max(rng.choice((0, 1, -1, 127, 128, 255, 256, 6400, 12800, 32767, 32768, 65535, 65536)), lo), hi)
    if k < 0.7:
        v = rng.choice(DOCUMENTED) + rng.choice((0, 0, 0, 1, -1))
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


class Num(Field):
    def __init__(self, off, fmt, lo=None, hi=None):
        super().__init__(off, fmt)
        a, b = RANGES[fmt]
        self.lo, self.hi = a if lo is None else lo, b if hi is None else hi
        self.tlo, self.thi = a, b

    def rand(self, rng, p):
        cur = self.raw(p) if rng.random() < CLOSE[0] else ABSENT
        if cur is not ABSENT and self.lo <= cur <= self.hi:  # close to what is stored
            bit = 1 << rng.randrange(self.size * 8)
            v = rng.choice((cur, cur + 1, cur - 1, cur + bit, cur - bit, -cur, self.hi - cur))
            if self.lo <= v <= self.hi:
                return v
        return rand_int(rng, self.lo, self.hi)

    def bad(self, rng, cur):
        return [self.tlo - 1, self.thi + 1, self.tlo - rng.randint(1, 1 << 20), self.thi + rng.randint(1, 1 << 33),
                1.5, "5", None, (1,)]


class F32(Field):
    fmt = "f"

    def rand(self, rng, p):
        cur = self.raw(p) if rng.random() < CLOSE[0] else ABSENT
        if cur is not ABSENT and abs(cur) < 1e38:
            return neighbour(rng, "f", cur)
        return f32(rng.choice((0.0, 1.0, -1.0, 0.5, rng.uniform(0, 1), rng.uniform(-1e6, 1e6), 1e-30, 3e38)))

    def bad(self, rng, cur):
        return [1e39, -1e39, "0.5", None]


class F64(Field):
    fmt = "d"

    def rand(self, rng, p):
        cur = self.raw(p) if rng.random() < CLOSE[0] else ABSENT
        if cur is not ABSENT and abs(cur) < 1e38:
            return neighbour(rng, "d", cur)
        return rng.choice((0.0, 1.0, 0.5, rng.uniform(0, 1), rng.uniform(-1e6, 1e6)))

    def bad(self, rng, cur):
        return ["0.5", None]


class Flag8(Field):
    fmt = "B"

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else bool(r)

    def enc(self, p, v):
        return self.put(p, 1 if v else 0)

    def same(self, got, want):
        return type(got) is bool and got == want

    def rand(self, rng, p):
        return rng.random() < 0.5


class Flag32(Flag8):
    fmt = "I"

    def bad(self, rng, cur):
        return ["x", -1, 1 << 32]


class Bits(Field):
    """A bit mask inside an integer."""

    def __init__(self, off, fmt, mask, inv=False):
        super().__init__(off, fmt.upper())
        self.mask, self.inv = mask, inv

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else (r & self.mask == self.mask) != self.inv

    def enc(self, p, v):
        r = self.raw(p)
        return self.put(p, r | self.mask if v != self.inv else r & ~self.mask)

    def same(self, got, want):
        return type(got) is bool and got == want

    def rand(self, rng, p):
        return rng.random() < 0.5


def named(got, name):
    return name is None or getattr(got, "name", None) == name


def members(text, first=0):
    """Names of consecutive values."""
    return dict(enumerate(text.split(), first))


class EnumNum(Num):
    """An integer shown as an enum member of that name; compares equal to the integer."""

    def __init__(self, off, fmt, names):
        super().__init__(off, fmt)
        self.names = names
        self.values = sorted(names)

    def same(self, got, want):
        return got == want and named(got, self.names.get(want))

    def rand(self, rng, p):
        return rng.choice(self.values)

    def arg(self, cur, v):
        return type(cur)[self.names[v]] if v in self.names else type(cur)(v)

    def bad(self, rng, cur):
        return ["x", None]


class PlainEnum(Num):
    """An integer event documented as an enum; assignable as a number."""

    def __init__(self, off, fmt, names, enum):
        super().__init__(off, fmt)
        self.names, self.enum = names, enum
        self.values = sorted(names)

    def same(self, got, want):
        return got == want and (want not in self.names or got == self.enum()[self.names[want]])

    def arg(self, cur, v):
        return v if v % 4 else self.enum()[self.names[v]]

    def rand(self, rng, p):
        return rng.choice(self.values)


class StrEnum(Field):
    fmt = "I"

    def __init__(self, off, names):
        super().__init__(off)
        self.names = names

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else self.names[r]

    def same(self, got, want):
        return str(got) == want

    def enc(self, p, v):
        return self.put(p, self.names.index(v))

    def rand(self, rng, p):
        return rng.choice(self.names)

    def bad(self, rng, cur):
        return ["nope", None]


class Pair(Field):
    """Two numbers shown as a tuple."""

    def __init__(self, off, fmt):
        super().__init__(off, fmt * 2)
        self.lo, self.hi = RANGES[fmt]

    def same(self, got, want):
        return isinstance(got, tuple) and tuple(got) == want

    def enc(self, p, v):
        return self.put(p, *v)

    def rand(self, rng, p):
        return rand_int(rng, self.lo, self.hi), rand_int(rng, self.lo, self.hi)

    def bad(self, rng, cur):
        return [(self.hi + 1, 0), (0, self.lo - 1), ("a", 1), (1,), None, 5]


class PairPart(Field):
    """One half of a pair stored in one event."""

    def __init__(self, off, fmt):
        super().__init__(off, fmt)
        self.lo, self.hi = RANGES[fmt]

    rand = lambda self, rng, p: rand_int(rng, self.lo, self.hi)

    def bad(self, rng, cur):
        return [self.hi + 1, self.lo - 1, "5", None]


class Musical(Field):
    fmt = "I"

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else (r // 768, r % 768 // 48, r % 48 * 5)

    def same(self, got, want):
        return tuple(got) == want if got is not None else False

    def enc(self, p, v):
        return self.put(p, v[0] * 768 + v[1] * 48 + v[2] // 5)

    def arg(self, cur, v):
        return type(cur)(*v)

    def rand(self, rng, p):
        r = rng.choice((0, 1, 47, 48, 767, 768, rng.randint(0, 1 << 16), rng.randint(0, (1 << 32) - 1)))
        return r // 768, r % 768 // 48, r % 48 * 5

    def bad(self, rng, cur):
        return [None, "x", type(cur)(1 << 24, 0, 0), type(cur)(-1, 0, 0)]


class Log2(Field):
    fmt = "i"
    LIMIT = 1000000

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else 2 ** (r / 10000)

    def enc(self, p, v):
        return self.put(p, round(10000 * math.log2(v)))

    def rand(self, rng, p):
        r = rng.choice((0, 1, -1, 10000, -20000, 20000, rng.randint(-20000, 20000), rng.randint(-self.LIMIT, self.LIMIT)))
        return 2 ** (r / 10000)

    def bad(self, rng, cur):
        return [0.0, -1.0, "x", None, float("inf"), float("nan")]


class LogNorm(Field):
    fmt = "HH"

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else (2 ** (r[0] / 4096) / 32768 if r[0] else 0.0)

    def enc(self, p, v):
        if not v:
            return self.put(p, 0, 0)
        return self.put(p, round(4096 * (math.log2(v) + 15)), 63)

    def rand(self, rng, p):
        n = rng.choice((0, 1, 61440, rng.randint(1, 61440), rng.randint(1, 61440)))
        return 2 ** (n / 4096) / 32768 if n else 0.0

    def bad(self, rng, cur):
        return [1.0001, -0.0001, 5.0, "x", None, float("nan")]


class Color(Field):
    fmt = "4B"

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else tuple(x / 255 for x in r)

    def same(self, got, want):
        return got is not None and tuple(got) == want

    def enc(self, p, v):
        return self.put(p, *(round(x * 255) for x in v))

    def arg(self, cur, v):
        return type(cur)(*v)

    def rand(self, rng, p):
        cur = self.raw(p) if rng.random() < CLOSE[0] else ABSENT
        if cur is not ABSENT:
            k = rng.randrange(4)
            return tuple((x ^ 1 if j == k else x) / 255 for j, x in enumerate(cur))
        if rng.random() < 0.2:
            return rng.choice(((0.0,) * 4, (1.0,) * 4, tuple(float(rng.randrange(2)) for _ in range(4))))
        return tuple(rng.randint(0, 255) / 255 for _ in range(4))

    def bad(self, rng, cur):
        c = [0.0, 0.5, 1.0, 0.25]
        c[rng.randrange(4)] = rng.choice((2.0, -1.0, 1.01, -0.01, 256.0, float("nan"), float("inf")))
        return [type(cur)(*c), type(cur)(*c), None, 5, True, "#ffffff", b"abcd", [1], (1, 2), (1, 2, 3, 4), {}]


class Height(Field):
    """Track height, a float shown as a percentage."""

    fmt = "f"

    def dec(self, p):
        r = self.raw(p)
        return r if r is ABSENT else "%d%%" % round(r * 100)

    def enc(self, p, v):
        return self.put(p, int(v[:-1]) / 100)

    def rand(self, rng, p):
        return "%d%%" % rng.choice((0, 1, 29, 57, 58, 100, 113, rng.randint(0, 400), rng.randint(0, 5000)))

    def bad(self, rng, cur):
        return ["abc%", None, "%", "150", "", "100 %%", 100, 1.5, b"100%"]


class Reverb(Field):
    """Type (A or B at 65536) and mix share a number."""

    fmt = "I"

    def __init__(self, off, part):
        super().__init__(off)
        self.part = part

    def dec(self, p):
        r = self.raw(p)
        if r is ABSENT:
            return r
        t = 65536 if r >= 65536 else 0
        return t if self.part == "type" else r - t

    def enc(self, p, v):
        r = self.raw(p)
        t = 65536 if r >= 65536 else 0
        return self.put(p, v + (r - t) if self.part == "type" else t + v)

    def same(self, got, want):
        return got == want and named(got, {0: "A", 65536: "B"}[want] if self.part == "type" else None)

    def arg(self, cur, v):
        return type(cur)["B" if v else "A"] if self.part == "type" else v

    def rand(self, rng, p):
        return rng.choice((0, 65536)) if self.part == "type" else rng.choice((0, 1, 255, 256, rng.randint(0, 256)))

    def bad(self, rng, cur):
        return ["x", None] + ([] if self.part == "type" else [-1 << 17, 1 << 32, -1, 65536, 65537])


class Marker(Field):
    fmt = "I"

    def same(self, got, want):
        return got == want and named(got, ("Signature" if want else "Marker") if self.part == "type" else None)

    def __init__(self, part):
        super().__init__(0)
        self.part = part

    def dec(self, p):
        r = self.raw(p)
        sig = r >= 0x8000000
        return (0x8000000 if sig else 0) if self.part == "type" else r - (0x8000000 if sig else 0)


ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def rand_text(rng, enc, maxlen=None):
    n = rng.choice((0, 1, 2, 5, rng.randint(0, 20), rng.randint(0, 20), rng.randint(55, 70), rng.randint(120, 135)))
    if rng.random() < 0.02:
        n = rng.choice((8190, 8191, 8192, 16382, 16383, 16384))
    if maxlen is not None:
        n = min(n, maxlen)
    if 2 < n < 100 and rng.random() < 0.2:  # what is easily "cleaned up"
        v = rand_text(rng, enc, n - 2)
        k = rng.choice((0, len(v), rng.randint(0, len(v))))
        return v[:k] + rng.choice(("\r\n", "\n", "\r", "\t", " ", "  ", "\\", "//", "./", "%s", "\"", "{}", "\x1a")) + v[k:]
    if enc == "ascii":
        return "".join(chr(rng.randint(32, 126)) for _ in range(n))
    pool = ("abc XYZ-019_", "éüñß", "日本語文字", "Ωжλ", "😀🎹", "\u200b\ufeff\u0100\u01ff\x01\x7f\xa0")
    return "".join(rng.choice(rng.choice(pool)) for _ in range(n))


class Text(Codec):
    text = True

    def __init__(self, enc):
        self.encoding = enc

    def dec(self, p):
        return p.decode(self.encoding).rstrip("\0")

    def enc(self, p, v):
        return (v + "\0").encode(self.encoding)

    def rand(self, rng, p):
        v = rand_text(rng, self.encoding)
        if rng.random() < CLOSE[0]:
            try:
                cur = self.dec(p)
            except UnicodeDecodeError:
                cur = ""
            if type(cur) is str and 0 < len(cur) < 200:  # close to what is stored
                v = rng.choice((cur, cur + cur[-1], cur[:-1], cur[1:], cur[::-1], cur.swapcase(), cur + " ", " " + cur, v + cur))
                try:
                    v.encode(self.encoding)
                except UnicodeEncodeError:
                    v = rand_text(rng, self.encoding)
                v = v.rstrip("\0")
        if len(v) > 1 and rng.random() < 0.03:
            k = rng.randrange(len(v) - 1)
            v = v[:k] + "\0" + v[k + 1:]
        return v

    def bad(self, rng, cur):
        out = [5, None, b"bytes"]
        out.append(odd_text(rng, self.encoding))
        return out


def odd_text(rng, encoding):
    """Text which the encoding cannot represent."""
    if encoding == "ascii":
        odd = rng.choice(("\x80", "\xa0", "\xe9", "\xff", "\u0101", "\u20ac", "\uff21", "\u65e5", "\U0001f600"))
    else:
        odd = rng.choice(("\ud800", "\udbff", "\udc00", "\udfff", "\udc00\ud800"))
    return rng.choice(("", "a", "caf")) + odd + rng.choice(("", "b", " y"))


class PathText(Text):
    def __init__(self, enc, strings=False):
        super().__init__(enc)
        self.strings = strings  # whether it may be assigned as text, too

    def dec(self, p):
        return pathlib.Path(super().dec(p))

    def arg(self, cur, v):
        return str(v) if self.strings and len(str(v)) % 2 else v

    def enc(self, p, v):
        s = str(v)
        return super().enc(p, "" if s == "." else s)

    def rand(self, rng, p):
        parts = ["".join(rng.choice(ALPHA + " _-.%éλ日" if self.encoding != "ascii" else ALPHA + " _-%") for _ in range(rng.randint(1, 9))) for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.3:
            parts.insert(0, rng.choice(("/", "//net", "C:\\", "..", "../..", "~", "%FLStudioFactoryData%", "%USERPROFILE%\\x", "a\\b", "$HOME", ".x", "x" * 300)))
        return pathlib.Path(*parts)

    def bad(self, rng, cur):
        return [pathlib.Path(odd_text(rng, self.encoding)), None, 5, b"x", [1], {}, 2.5]


class Licensee(Text):
    """The name is jumbled up, per character and position."""

    def dec(self, p):
        out = []
        for i, ch in enumerate(super().dec(p)):
            for n in (ord(ch) - 26 + i, ord(ch) + 49 + i):
                if n > 0 and n < 128 and chr(n).isalnum():
                    out.append(chr(n))
                    break
        return "".join(out)

    def jumble(self, v):
        out = []
        for i, ch in enumerate(v):
            for n in (ord(ch) + 26 - i, ord(ch) - 49 - i):
                if 0 < n <= 127:
                    out.append(chr(n))
                    break
        return "".join(out)

    def enc(self, p, v):
        return super().enc(p, self.jumble(v))

    def rand(self, rng, p):
        for _ in range(200):
            v = "".join(rng.choice(ALPHA) for _ in range(rng.randint(0, 20) if rng.random() < 0.7 else rng.randint(20, 70)))
            # only names which the jumbling can represent
            if self.dec(super().enc(p, self.jumble(v))) == v:
                return v
        return ""

    def bad(self, rng, cur):
        return [5, None, "caf\xe9", "\u65e5", "0" * 80]


class Rec(Codec):
    """A field of (or the whole of) a record of VST plugin data."""

    def __init__(self, rid, inner):
        self.rid, self.inner = rid, inner
        self.text = inner.text

    @staticmethod
    def records(p):
        pos, out = 4, []
        while pos + 12 <= len(p):
            rid, ln = struct.unpack_from("<IQ", p, pos)
            if pos + 12 + ln > len(p):
                break
            out.append((rid, p[pos + 12 : pos + 12 + ln]))
            pos += 12 + ln
        return out

    @staticmethod
    def join(head, recs):
        return head + b"".join(struct.pack("<IQ", r, len(d)) + d for r, d in recs)

    @classmethod
    def rest(cls, p):
        """What follows the last record."""
        return p[4 + sum(12 + len(d) for _, d in cls.records(p)) :]

    def has(self, p):
        return any(r == self.rid for r, _ in self.records(p))

    def dec(self, p):
        for r, d in self.records(p):
            if r == self.rid:
                return self.inner.dec(d)
        return ABSENT

    def enc(self, p, v):
        recs, rest = self.records(p), self.rest(p)
        for k, (r, d) in enumerate(recs):
            if r == self.rid:
                recs[k] = (r, self.inner.enc(d, v))
                break
        return self.join(p[:4], recs) + rest

    def same(self, got, want):
        return self.inner.same(got, want)

    def arg(self, cur, v):
        return self.inner.arg(cur, v)

    def rand(self, rng, p):
        d = next((d for r, d in self.records(p) if r == self.rid), b"")
        return self.inner.rand(rng, d)

    def bad(self, rng, cur):
        return self.inner.bad(rng, cur)


class RawText(Codec):
    """UTF-8 without a terminator."""

    text = True

    def dec(self, p):
        return p.decode("utf8")

    def enc(self, p, v):
        return v.encode("utf8")

    def rand(self, rng, p):
        return rand_text(rng, "utf8", 200)

    def bad(self, rng, cur):
        return [5, "x\ud800y"]


class RawBytes(Codec):
    def dec(self, p):
        return p

    def enc(self, p, v):
        return v

    def rand(self, rng, p):
        return bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 16, rng.randint(0, 300)))))

    def bad(self, rng, cur):
        return [5, "text"]


class LastFlag(Flag8):
    """The very last byte, whatever comes before it."""

    def raw(self, p):
        return p[-1]

    def put(self, p, raw):
        return p[:-1] + bytes((raw,))


class Pages(Codec):
    """The pages of a notebook: number, length and UTF-16 text of each, then -1."""

    @staticmethod
    def split(p):
        pos, out = 8, {}
        while True:
            k = struct.unpack_from("<i", p, pos)[0]
            pos += 4
            if k == -1:
                return out, pos
            n = shift = 0
            while True:
                b = p[pos]
                pos += 1
                n |= (b & 0x7F) << shift
                shift += 7
                if b < 0x80:
                    break
            out[k] = p[pos : pos + 2 * n].decode("utf-16-le")
            pos += 2 * n

    def dec(self, p):
        return self.split(p)[0]

    def enc(self, p, v):
        out = p[:8]
        for k, t in v.items():
            b = t.encode("utf-16-le")
            n = len(b) // 2
            out += struct.pack("<i", k)
            while n > 0x7F:
                out += bytes((n & 0x7F | 0x80,))
                n >>= 7
            out += bytes((n,)) + b
        return out + struct.pack("<i", -1) + p[self.split(p)[1] :]

    def same(self, got, want):
        return isinstance(got, dict) and list(got.items()) == list(want.items())

    def rand(self, rng, p):
        v = dict(self.dec(p))
        for _ in range(rng.choice((1, 1, 2, 4))):
            k = rng.choice(list(v) + [rng.randrange(100), rng.choice((0, 99, 100, 127, 128, 1000, -2, 0x7FFFFFFF, -0x80000000))])
            if k in v and rng.random() < 0.3:
                del v[k]
            else:
                t = rand_text(rng, "utf-16-le", rng.choice((5, 150))).replace("\0", "")
                if rng.random() < 0.2:
                    t = (t or "note") * (rng.choice((64, 127, 128, 2047, 2048, 5000, 16384)) // len(t or "note") + 1)
                v[k] = t
        return v

    def bad(self, rng, cur):
        return [5, "text", {0: 5}, {"x": "y"}, {1 << 31: "y"}, {-1: "y"}, {0: "x", 1: odd_text(rng, "utf-16-le")}]
