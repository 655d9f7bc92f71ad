"""Independent codec of the FLP container; shares no code with PyFLP.

A file is a :class:`Flp`: header values and a list of ``(id, payload)``.
"""

from __future__ import annotations

import struct

FORMATS = (-1, 0, 16, 24, 32, 48, 49, 50, 64, 80)
PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
TEXT_IDS = tuple(range(192, 208)) + (231, 239, 241)


class FormatError(Exception):
    pass


class Flp:
    __slots__ = ("fmt", "nch", "ppq", "events")

    def __init__(self, fmt, nch, ppq, events):
        self.fmt, self.nch, self.ppq = fmt, nch, ppq
        self.events = list(events)

    def copy(self):
        return Flp(self.fmt, self.nch, self.ppq, self.events)

    def __eq__(self, o):
        return (self.fmt, self.nch, self.ppq, self.events) == (o.fmt, o.nch, o.ppq, o.events)


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def fixed_size(id_):
    return 1 if id_ < 64 else 2 if id_ < 128 else 4 if id_ < 192 else None


def event_bytes(id_, payload):
    n = fixed_size(id_)
    if n is not None:
        assert len(payload) == n, (id_, payload)
        return bytes((id_,)) + payload
    return bytes((id_,)) + varint(len(payload)) + payload


def build(flp):
    body = b"".join(event_bytes(i, p) for i, p in flp.events)
    head = struct.pack("<4sIhHH", b"FLhd", 6, flp.fmt, flp.nch, flp.ppq)
    return head + b"FLdt" + struct.pack("<I", len(body)) + body


def parse(data):
    if len(data) < 22 or data[:4] != b"FLhd" or data[14:18] != b"FLdt":
        raise FormatError("magic")
    size, fmt, nch, ppq = struct.unpack_from("<IhHH", data, 4)
    (n,) = struct.unpack_from("<I", data, 18)
    if size != 6 or n != len(data) - 22:
        raise FormatError("size")
    events, pos = [], 22
    while pos < len(data):
        id_ = data[pos]
        pos += 1
        ln = fixed_size(id_)
        if ln is None:
            ln = shift = 0
            while True:
                if pos >= len(data):
                    raise FormatError("varint")
                b = data[pos]
                pos += 1
                ln |= (b & 0x7F) << shift
                shift += 7
                if not b & 0x80:
                    break
        if pos + ln > len(data):
            raise FormatError("payload")
        events.append((id_, data[pos : pos + ln]))
        pos += ln
    return Flp(fmt, nch, ppq, events)


def version_of(events):
    for i, p in events:
        if i == 199:
            return tuple(int(x) for x in p.decode("ascii").rstrip("\0").split("."))
    return None


def text_codec(version):
    return "utf-16-le" if tuple(version[:2]) >= (11, 5) else "ascii"


def describe_diff(a, b, limit=4):
    """Readable difference of two files (bytes)."""
    try:
        fa, fb = parse(a), parse(b)
    except FormatError as e:
        return "not parseable (%s): %d vs %d bytes" % (e, len(a), len(b))
    out = []
    for k in ("fmt", "nch", "ppq"):
        if getattr(fa, k) != getattr(fb, k):
            out.append("header %s: %r -> %r" % (k, getattr(fa, k), getattr(fb, k)))
    if len(fa.events) != len(fb.events):
        out.append("number of events: %d -> %d" % (len(fa.events), len(fb.events)))
    for n, (x, y) in enumerate(zip(fa.events, fb.events)):
        if x != y:
            out.append(
                "event #%d id %d: %s -> id %d: %s" % (n, x[0], x[1][:80].hex(), y[0], y[1][:80].hex())
            )
            if len(out) >= limit:
                break
    return "; ".join(out) or "same events, different encoding"
