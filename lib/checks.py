"""One monitor per property. A check is a function of (ctx, rng, k, tier) which
runs case ``k`` and raises Violation; CHECKS gives the number of cases per tier.
"""

from __future__ import annotations

import collections
import contextlib
import itertools
import os
import pathlib
import random
import re
import resource
import shutil
import struct
import threading

import fields
import flpfmt
import gen
import refmodel
from fields import ABSENT, Color, EnumNum, Flag8, Musical, Reverb, rand_text, f32
from flpfmt import Flp
from harness import Ctx, Session, Violation, brief, fail, pyflp, show_path
from refmodel import Fact, RefModel

from pyflp.exceptions import HeaderCorrupted, ModelNotFound, NoModelsFound, PropertyCannotBeSet
from pyflp.types import RGBA, FLVersion, MusicalTime

ASSETS = pathlib.Path(os.environ.get("PYFLP_ROOT", "/repo")) / "tests" / "assets"
_assets = None


def assets():
    """Files written by FL Studio itself."""
    global _assets
    if _assets is None:
        _assets = []
        if ASSETS.is_dir():
            for p in sorted(ASSETS.rglob("*")):
                if p.is_file() and p.parent.name != "corrupted":
                    data = p.read_bytes()
                    try:
                        flp = flpfmt.parse(data)
                    except flpfmt.FormatError:
                        continue
                    _assets.append((p.name, flp))
    return _assets


def small_assets():
    return [a for a in assets() if len(a[1].events) < 100]


VITAL = (199, 64, 21, 65, 99, 147, 236, 148, 33, 34, 205, 201, 213, 98, 225, 233, 238)


def thin(rng, flp, keep=0.9):
    """A real file without some of its events."""
    return Flp(flp.fmt, flp.nch, flp.ppq, [e for e in flp.events if e[0] in VITAL or rng.random() < keep])


def pick(rng, obs):
    """A setting; every kind of setting is as likely as any other."""
    groups = collections.defaultdict(list)
    for o in obs:
        groups[kind(o)].append(o)
    return rng.choice(groups[rng.choice(sorted(groups))])


def kind(o):
    return (o.area, tuple(x for t, x in o.path if t == "." or (t == "@" and isinstance(x, str))), o.attr)


# C01 --------------------------------------------------------------------------
def c01(ctx, rng, k, tier):
    named = assets()
    what = k % 5
    if k < len(named):
        name, flp = named[k]
    elif what == 0 and named:
        name, flp = rng.choice(named if rng.random() < 0.05 else small_assets())
        name = "thinned " + name
        if rng.random() < 0.5:
            flp = thin(rng, flp, rng.choice((0.5, 0.9)))
        else:  # known events having unknown data after what is known
            flp = flp.copy()
            for n, (i, p) in enumerate(flp.events):
                if i in gen.STRUCTS and i != 217 and rng.random() < 0.5:
                    flp.events[n] = (i, p + gen.rbytes(rng, rng.randint(1, 30)))
    elif what == 1:
        name, flp = "stream", gen.stream(rng)
    elif what == 2:
        name, flp = "odd sizes", gen.odd(rng)
    else:
        name, flp = "generated", gen.make(rng, big=rng.random() < 0.1)
    data = flpfmt.build(flp)
    ctx.artifact = data
    src = ctx.write(data)
    arg = str(src) if rng.random() < 0.5 else src
    try:
        project = pyflp.parse(arg)
    except Exception as e:
        fail("parsing a well-formed file (%s) raised %s: %s", name, type(e).__name__, e)
    if src.read_bytes() != data:
        fail("parsing changed the file")
    dst = src if rng.random() < 0.2 else ctx.path()
    if dst is not src and rng.random() < 0.3:
        dst.write_bytes(data + b"a longer file which exists already" * 9)
    for _ in range(2):
        pyflp.save(project, str(dst) if rng.random() < 0.5 else dst)
        got = dst.read_bytes()
        if got != data:
            fail("%s: saved file differs: %s", name, flpfmt.describe_diff(data, got))
        ctx.saw("round trips", name if k < len(named) else name.split(" ")[0], flpfmt.version_of(flp.events))
    for i, p in flp.events:
        ctx.saw("events round-tripped", i, len(p).bit_length())
    for p in (src, dst):
        if p.exists():
            p.unlink()


# C02 --------------------------------------------------------------------------
DEFAULT_NUM = {1: "B", 2: "H", 4: "I"}


def c02(ctx, rng, k, tier):
    named = small_assets()
    if k % 4 == 0 and named:
        flp = thin(rng, rng.choice(named)[1])
    elif k % 4 == 1:
        flp = gen.make(rng)
    elif k % 4 == 2:
        flp = gen.odd(rng)
    else:
        flp = gen.stream(rng)
    data = flpfmt.build(flp)
    ctx.artifact = data
    project = ctx.parse(data)
    tree = project.events
    evs = [e for e in tree]
    if [int(e.id) for e in evs] != [i for i, _ in flp.events]:
        fail("IDs of the parsed events are not the stored ones: %d vs %d", len(evs), len(flp.events))
    if len(tree) != len(evs):
        fail("len() of the events is %d, but %d are iterated", len(tree), len(evs))
    if len(set(map(id, evs))) != len(evs):
        fail("the same event object occurs more than once")
    enc = flpfmt.text_codec(flpfmt.version_of(flp.events))
    for n, (e, (i, p)) in enumerate(zip(evs, flp.events)):
        raw = flpfmt.event_bytes(i, p)
        if bytes(e) != raw:
            fail("event #%d (ID %d) serialises as %s, stored as %s", n, i, bytes(e)[:60].hex(), raw[:60].hex())
        if e.size != len(raw):
            fail("event #%d (ID %d) has size %r, stored size is %d", n, i, e.size, len(raw))
        if i in refmodel.SIMPLE:
            c = refmodel.SIMPLE[i]
            if not c.same(e.value, c.dec(p)):
                fail("event #%d (ID %d) has value %s, stored is %s", n, i, brief(e.value), brief(c.dec(p)))
        elif i < 192:
            want = int.from_bytes(p, "little")
            if e.value != want:
                fail("event #%d (ID %d) has value %s, stored is %d", n, i, brief(e.value), want)
        elif i in flpfmt.TEXT_IDS:
            want = p.decode("ascii" if i == 199 else enc).rstrip("\0")
            if e.value != want:
                fail("event #%d (ID %d) has value %s, stored is %s", n, i, brief(e.value), brief(want))
        ctx.saw("events compared", i, len(p).bit_length())
    # grouping and filtering
    present = sorted({i for i, _ in flp.events})
    ids = [i for i, _ in flp.events]
    if sorted(int(x) for x in tree.ids) != present:
        fail("ids are %s, stored are %s", sorted(int(x) for x in tree.ids), present)
    if sorted(tree.indexes) != list(range(len(ids))):
        fail("indexes are not 0..%d", len(ids) - 1)
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    for _ in range(6):
        some = rng.sample(present, min(len(present), rng.choice((1, 2, 3, 8))))
        if rng.random() < 0.3:
            some.append(rng.randrange(256))
        want = [e for e in evs if int(e.id) in some]
        if not same([e for e in tree.get(*some)], want):
            fail("get(%s) does not yield the events in order", some)
        if not same([e for e in tree.subtree(lambda e: e.id in some)], want):
            fail("subtree for %s does not hold the events in order", some)
        x = rng.choice(some)
        own = [e for e in evs if int(e.id) == x]
        if tree.count(x) != len(own) or (x in tree) != bool(own):
            fail("count(%d) is %r and `in` %r for %d events", x, tree.count(x), x in tree, len(own))
        if own:
            if tree.first(x) is not own[0]:
                fail("first(%d) is not the first event", x)
        else:
            try:
                tree.first(x)
                fail("first(%d) found an event which does not exist", x)
            except KeyError:
                pass
        sep = [[e for e in t] for t in tree.separate(x)]
        if not same([e for t in sep for e in t], own) or any(len(t) != 1 for t in sep):
            fail("separate(%d) yields %s events for %d", x, [len(t) for t in sep], len(own))
        allids = some + [x]
        div = [[e for e in t] for t in tree.divide(x, *allids)]
        want, begun = [], False
        for e in evs:
            if int(e.id) == x:
                want.append([])
            if want and int(e.id) in allids:
                want[-1].append(e)
            elif int(e.id) in allids:
                begun = True  # before the first separator: joins the first part
        flat = [e for e in evs if int(e.id) in allids] if want else []
        if len(div) != len(want) or not same([e for t in div for e in t], flat):
            fail("divide(%d, %s) yields %d parts of %d events; expected %d of %d", x, allids, len(div), sum(map(len, div)), len(want), len(flat))
        if not begun and not all(same(a, b) for a, b in zip(div, want)):
            fail("divide(%d, %s) cuts at the wrong places", x, allids)
        cols = [[e for e in evs if int(e.id) == i] for i in dict.fromkeys(some)]
        grp = [sorted(map(id, t)) for t in tree.group(*dict.fromkeys(some))]
        want = [sorted(id(e) for e in row if e is not None) for row in itertools.zip_longest(*cols)]
        if grp != want:
            fail("group(%s) yields %d groups, expected %d", some, len(grp), len(want))
        sub = [[e for e in t] for t in tree.subtrees(lambda e: False if int(e.id) == x else (True if int(e.id) in allids else None), -1)]
        if not same([e for t in sub for e in t], [e for e in evs if int(e.id) in allids]):
            fail("subtrees for %s loses or repeats events", allids)
        n = rng.randint(0, len(sub) + 1)
        less = [[e for e in t] for t in tree.subtrees(lambda e: False if int(e.id) == x else (True if int(e.id) in allids else None), n)]
        if len(less) != min(n, len(sub)) or not all(same(a, b) for a, b in zip(less, sub)):
            fail("subtrees for %s, at most %d, yields %d of %d", allids, n, len(less), len(sub))
        ctx.saw("groupings compared", len(some), len(own).bit_length())
    if k % 4 in (0, 1):  # and after edits
        s = Session(ctx, flp, project)
        todo = s.editable()
        for _ in range(4 if todo else 0):
            o = pick(rng, todo)
            s.edit(o, o.rand(rng, s.flp))
        for n, (e, (i, p)) in enumerate(zip(tree, s.flp.events)):
            raw = flpfmt.event_bytes(i, p)
            if int(e.id) != i or bytes(e) != raw or e.size != len(raw):
                fail("after edits, event #%d is of ID %d, size %r and serialises as %s; expected %s%s", n, e.id, e.size, bytes(e)[:60].hex(), raw[:60].hex(), s.history())
            ctx.saw("events compared after edits", i)


# C03 --------------------------------------------------------------------------
def c03(ctx, rng, k, tier):
    if k % 4 == 0 and small_assets():
        flp = rng.choice(small_assets())[1]
    else:
        flp = gen.stream(rng) if k % 2 else gen.make(rng, channels=rng.choice((0, 1)), patterns=1, arrs=1, inserts=1, mode="sparse")
    data = flpfmt.build(flp)
    ctx.parse(data)  # control: the intact file is accepted

    def rejects(bad, what, header):
        ctx.artifact = bad
        p = ctx.write(bad)
        try:
            try:
                got = pyflp.parse(p)
            except HeaderCorrupted:
                ctx.saw("rejections", what)
                return
            except Exception as e:
                if header:
                    fail("%s: raised %s instead of HeaderCorrupted", what, type(e).__name__)
                ctx.saw("rejections", what, type(e).__name__)
                return
            fail("%s was accepted, with %d of %d events", what, len(got.events), len(flp.events))
        finally:
            if p.read_bytes() != bad:
                fail("%s: parsing changed the file", what)
            p.unlink()

    body = data[22:]
    mut = lambda at, new: data[:at] + new + data[at + len(new):]
    for at in (0, 1, 2, 3, 14, 15, 16, 17):
        b = data[at]
        rejects(mut(at, bytes((rng.choice([x for x in range(256) if x != b]),))), "wrong magic at %d" % at, True)
    rejects(mut(0, b"FLdt"), "data magic in place of header magic", True)
    rejects(mut(14, b"FLhd"), "header magic in place of data magic", True)
    for n in (0, 1, 5, 7, 10, 6 << 8, 6 << 24, 262, rng.randrange(7, 1 << 32)):
        rejects(mut(4, struct.pack("<I", n)), "header size", True)
    bad_fmt = [x for x in (-2, -16, 1, 2, 15, 17, 31, 33, 51, 63, 81, 96, 256, 16 << 8, 255, 32767, -32768, rng.randint(100, 32000), rng.randint(-32000, -2)) if x not in flpfmt.FORMATS]
    for x in bad_fmt:
        rejects(mut(8, struct.pack("<h", x)), "format", True)
    bad_ppq = [x for x in (0, 1, 23, 25, 95, 97, 100, 128, 240, 480, 961, 1920, 65535, 24 << 8, rng.randrange(65536)) if x not in flpfmt.PPQS]
    if tier == "thorough":
        bad_ppq += [x for x in range(k % 50, 65536, 50) if x not in flpfmt.PPQS]
    for x in bad_ppq:
        rejects(mut(12, struct.pack("<H", x)), "timebase", True)
    n = len(body)
    for d in {n + 1, n - 1, 0, n + 100, n // 2, n + (1 << 16), n ^ 0x80000000, n * 2} - {n}:
        if d >= 0:
            rejects(mut(18, struct.pack("<I", d)), "declared data size", True)
    for extra in (1, 2, 22, 300):
        rejects(data + bytes(extra), "bytes after the data", True)
        rejects(data + data[:extra], "file repeated after the data", True)
    # cut at every byte, as it is and with the size put right
    cuts = range(len(data)) if len(data) < 700 or tier == "thorough" else sorted(set(range(24)) | {rng.randrange(len(data)) for _ in range(200)})
    ends = {22}
    pos = 22
    for i, p in flp.events:
        pos += len(flpfmt.event_bytes(i, p))
        ends.add(pos)
    for c in cuts:
        rejects(data[:c], "cut at byte %d" % c if c < 22 else "cut", True)
        if c > 22 and c not in ends:
            rejects(data[:18] + struct.pack("<I", c - 22) + data[22:c], "last event cut", False)
        elif c > 22 and pos > 22:
            kept = data[:18] + struct.pack("<I", c - 22) + data[22:c]
            want = flpfmt.parse(kept)
            if flpfmt.version_of(want.events):
                got = ctx.parse(kept)
                if len(got.events) != len(want.events):
                    fail("file cut between events and its size put right: %d events instead of %d", len(got.events), len(want.events))
                ctx.saw("controls accepted")
    # an event longer than what is left, anywhere a length is stored
    for _ in range(6):
        i = rng.choice((210, 194, 215, 224, 255, 203, 199))
        size = rng.choice((1, 2, 127, 128, 300, 70000))
        have = rng.randrange(size)
        extra = bytes((i,)) + flpfmt.varint(size) + bytes(have)
        rejects(flpfmt.build(Flp(flp.fmt, flp.nch, flp.ppq, [])) [:18] + struct.pack("<I", n + len(extra)) + body + extra, "event past the end", False)
    for i in (5, 70, 150):
        full = flpfmt.fixed_size(i)
        for have in range(full):
            extra = bytes((i,)) + bytes(have)
            rejects(data[:18] + struct.pack("<I", n + len(extra)) + body + extra, "fixed size event past the end", False)
    rejects(data[:18] + struct.pack("<I", n + 2) + body + b"\xd2\x80", "length cut", False)
    # text before the version
    rest = [e for e in flp.events if e[0] != 199]
    for i in (192, 194, 200, 203, 207, 231, 239, 241, 201, 195):
        pay = rng.choice((b"", b"abc\0", b"a\0b\0\0\0"))
        at = rng.choice((0, rng.randint(0, 3)))
        pre = [(rng.choice((37, 38, 210)), b"\0")] * at
        rejects(flpfmt.build(Flp(flp.fmt, flp.nch, flp.ppq, pre + [(i, pay)] + flp.events)), "text before the version", False)
        if not any(x[0] in flpfmt.TEXT_IDS for x in rest):
            rest = rest + [(i, pay)]
        rejects(flpfmt.build(Flp(flp.fmt, flp.nch, flp.ppq, rest)), "text without a version", False)


# C04 --------------------------------------------------------------------------
def texts(rng, enc):
    """Texts around the lengths where the stored length grows a byte."""
    per = 1 if enc == "ascii" else 2
    lens = [0, 1, 127 // per - 1, 127 // per, 128 // per - 1, 128 // per, 16383 // per - 1, 16383 // per, 16384 // per - 1, 16384 // per]
    n = rng.choice(lens) if rng.random() < 0.5 else rng.randint(0, 40)
    if enc == "ascii":
        return "".join(chr(rng.randint(1, 127)) for _ in range(n))
    k = rng.random()
    if k < 0.3:
        return "".join(chr(rng.randint(1, 0xD7FF)) for _ in range(n))
    if k < 0.5:
        return "".join(chr(rng.choice((rng.randint(0x10000, 0x10FFFF), rng.randint(0xE000, 0xFFFF), rng.randint(0x80, 0xFF)))) for _ in range(n // 2))
    if k < 0.6:
        return "".join(chr(rng.choice((0x100, 0x200, 0x3000, 0x4E00, 0xFF00))) for _ in range(n))
    return rand_text(rng, enc, n)


def c04(ctx, rng, k, tier):
    v = gen.VERSIONS[k % len(gen.VERSIONS)] if k % 3 else rng.choice(((11, 4, 9), (11, 5, 0), (11, 4, 99, 1), (11, 5, 0, 1), (11, 0), (12, 0), (9, 9, 9), (20, 0, 0), (2, 0, 0)))
    flp = gen.make(rng, version=v, mode="full", channels=rng.choice((1, 3)), patterns=2, arrs=rng.choice((0, 1)), inserts=rng.choice((0, 2)), cuts=0.0)
    enc = flpfmt.text_codec(v)
    # any text of any length in any text event, terminated or not
    for n, (i, p) in enumerate(flp.events):
        if i in flpfmt.TEXT_IDS and i not in (199, 200, 201, 196, 202, 231) and rng.random() < 0.5:
            t = texts(rng, enc)
            flp.events[n] = (i, t.encode(enc) + rng.choice((b"", b"\0", b"\0")) * (1 if enc == "ascii" else 2))
    s = Session(ctx, flp)
    obs = [o for o in s.ref.obs if o.codec.text and not o.rec]
    cache = {}
    for o in obs:
        s.check(o, cache)
    ver = [o for o in s.ref.obs if o.attr == "version"][0]
    s.check(ver)
    if [e for e in s.project.events if e.id == 199][0].value != ".".join(map(str, v)):
        fail("version text reads as %r", [e for e in s.project.events if e.id == 199][0].value)
    s.check_file()
    done = []
    todo = [o for o in s.editable() if o.codec.text and not o.rec]
    for _ in range(12 if todo else 0):
        o = pick(rng, todo)
        t = texts(rng, enc) if type(o.codec).__name__ == "Text" else o.rand(rng, s.flp)
        if type(o.codec).__name__ == "Text" and len(t) > 1 and rng.random() < 0.1:
            n = rng.randrange(len(t) - 1)
            t = t[:n] + "\0" + t[n + 1:]
        s.edit(o, t, cache)
        s.check(o, cache)
        done.append(o)
        ctx.saw("texts assigned", enc, len(t).bit_length() if isinstance(t, str) else 0, o.attr)
    plain = [o for o in todo if type(o.codec).__name__ == "Text"]
    if k % 40 in (6, 7) and plain:  # where the stored length grows yet another byte
        t = texts(rng, enc)[:100]
        s.edit(rng.choice(plain), t + "x" * ((1 << 21 if enc == "ascii" else 1 << 20) - rng.choice((0, 1)) - len(t)))
        ctx.saw("texts assigned", enc, "long")
    s.check_file()
    s.check_reparsed(obs=obs + [ver])
    # values of the events themselves
    p2 = ctx.parse(flpfmt.build(s.flp))
    for e, (i, p) in zip(p2.events, s.flp.events):
        if i in flpfmt.TEXT_IDS and i != 199:
            if e.value != p.decode(enc).rstrip("\0"):
                fail("text event %d reads as %s, stored %s", i, brief(e.value), brief(p.decode(enc)))
            ctx.saw("text events compared", i, enc)


# C05-C10: settings --------------------------------------------------------------
AREAS = {
    "C05": ("project",),
    "C06": ("rack", "channel", "points", "layer"),
    "C07": ("mixer", "insert", "eq", "slot"),
    "C08": ("patterns", "pattern", "note", "controller", "marker/pattern"),
    "C09": ("arrs", "arr", "track", "item", "clip", "target", "marker/arr"),
    "C10": ("plugin",),
}


def many(r, few):
    """Mixers of some inserts, and now and then of as many as there can be."""
    if r.random() < 0.05:
        return dict(inserts=r.choice((65, 104, 105, 126, 127)), slots=r.choice((0, 1)))
    return dict(inserts=r.choice(few))


PROFILE = {
    "C05": lambda r: dict(channels=r.choice((0, 1)), patterns=r.choice((0, 1)), arrs=r.choice((0, 1)), inserts=r.choice((0, 1))),
    "C06": lambda r: dict(channels=r.choice((1, 2, 4, 6)), patterns=r.choice((0, 1, 2)), arrs=0, inserts=r.choice((0, 1)), mode=r.choice(("full", "full", "mixed"))),
    "C07": lambda r: dict(channels=r.choice((0, 1)), patterns=0, arrs=0, mode=r.choice(("full", "full", "mixed")), **many(r, (1, 2, 4, 6))),
    "C08": lambda r: dict(channels=r.choice((0, 2)), patterns=r.choice((1, 2, 3, 5)), arrs=r.choice((0, 1)), inserts=0, mode=r.choice(("full", "full", "mixed"))),
    "C09": lambda r: dict(channels=r.choice((1, 3)), patterns=r.choice((1, 3)), arrs=r.choice((1, 2, 3)), inserts=0, mode=r.choice(("full", "full", "mixed"))),
    "C10": lambda r: dict(channels=r.choice((1, 3, 5)), patterns=0, arrs=0, inserts=r.choice((0, 1, 2)), kinds=("native", "instrument"), mode=r.choice(("full", "full", "mixed"))),
}
ASSET_DIRS = {"C06": "channels", "C07": "inserts", "C08": "patterns", "C10": "plugins"}


CROWD = {
    "C06": ("channels", "points", "groups"), "C07": ("inserts",), "C08": ("notes", "patterns", "markers"), "C09": ("clips", "tracks", "arrangements", "markers"),
    "C10": ("state",), "C11": ("channels", "groups"), "C12": ("patterns", "notes", "markers"), "C13": ("clips", "tracks", "arrangements", "markers"),
    "C14": ("inserts", "state"), "C15": gen.CROWDS, "C19": gen.CROWDS, "C20": ("channels", "patterns", "tracks", "groups", "markers", "inserts"),
    "C24": ("state",), "C25": gen.CROWDS,
}


def crowded(pid, k):
    """Every tenth file has a lot of one of the things the property is about."""
    of = CROWD[pid]
    return of[k // 10 % len(of)] if k % 10 == 4 else None


def settings(pid):
    areas = AREAS[pid]

    def run(ctx, rng, k, tier):
        if k % 6 == 5 and small_assets():
            flp = rng.choice(small_assets())[1]
        else:
            flp = gen.make(rng, crowd=pid in CROWD and crowded(pid, k) or None, **PROFILE[pid](rng))
        s = Session(ctx, flp)
        cache = {}
        s.check_all(areas, "", cache)
        edited = []
        todo = s.editable(areas)
        if todo and rng.random() < 0.3:
            twin(s, rng, todo, cache)
        for _ in range(2 if todo else 0):
            run_values(s, rng, todo, cache)
        for n in range(rng.choice((3, 8, 20)) if todo else 0):
            o = pick(rng, todo) if not edited or rng.random() < 0.75 else rng.choice(edited)
            v = o.rand(rng, s.flp)
            if rng.random() < 0.2:  # what another one has
                kin = [x for x in todo if x.attr == o.attr and x is not o and x.area == o.area and type(x.codec) is type(o.codec) and getattr(x.codec, "fmt", 0) == getattr(o.codec, "fmt", 0)]
                if kin and o.area != "target" and not partial(o):
                    v = rng.choice(kin).want(s.flp)
            use = rng.random()
            via = None
            c = cache if use < 0.6 else {}
            s.edit(o, v, c, via)
            s.check(o, cache)
            s.check(o, {})
            edited.append(o)
            # neighbours: settings of the same event, of the same object, and any
            near = [x for x in s.ref.obs if x is not o and x.ev is not None and x.ev == o.ev]
            for x in rng.sample(near, min(4, len(near))):
                s.check(x, cache, "neighbour ")
            s.check(rng.choice(s.ref.obs), cache)
            if rng.random() < 0.3:
                s.check_file()
        s.check_file()
        s.check_all(areas, "after edits: ", {})
        s.check_reparsed(areas)
        for o in edited[:10]:  # put the original values back: the original file
            v = o.want(s.original)
            s.edit(o, v, cache)
        s.check_file("after putting values back: ")
        rename(s, rng, areas)

    return run


def run_values(s, rng, todo, cache):
    """One setting takes all the values something might be special about."""
    o = pick(rng, todo)
    c = getattr(o.codec, "inner", o.codec)
    if type(c) is fields.Num and not partial(o):
        values = {c.lo, c.hi, c.lo + 1, c.hi - 1, -1, *fields.DOCUMENTED}
        for k in range(c.size * 8):
            values |= {1 << k, -1 << k, (1 << k) - 1, (1 << k) + 1}
        if c.size == 1:
            values = range(c.lo, c.hi + 1)
        values = [v for v in values if c.lo <= v <= c.hi]
        rng.shuffle(values)
    else:
        values = [o.rand(rng, s.flp) for _ in range(25)]
    if o.ev is not None and len(s.flp.events[o.ev][1]) > 2000:
        values = values[:20]
    events = list(s.project.events)
    for v in values:
        s.edit(o, v, cache)
        s.check(o, cache)
        if o.ev is not None:
            want = flpfmt.event_bytes(*s.flp.events[o.ev])
            try:
                got = bytes(events[o.ev])
            except Exception as e:
                fail("after %s = %s: the event cannot be stored, %s: %s", o, brief(v), type(e).__name__, e)
            if got != want:
                fail("after %s = %s: stored as %s instead of %s", o, brief(v), brief(got), brief(want))
    s.check_file("after a setting took many values: ")
    s.ctx.saw("settings swept", *kind(o))


def twin(s, rng, todo, cache):
    """Makes an item of a list the same as another one, and different again."""
    items = collections.defaultdict(lambda: collections.defaultdict(list))
    for o in todo:
        if o.path and o.path[-1][0] == "#" and o.area != "target" and not partial(o) and not o.codec.text:
            items[o.ev, o.path[:-1]][o.path].append(o)
    lists = [x for x in items.values() if len(x) > 1]
    if not lists:
        return
    paths = rng.choice(lists)
    a, b = rng.sample(sorted(paths), 2)
    there = {o.attr: o for o in paths[a]}
    for o in paths[b]:
        if o.attr in there:
            s.edit(o, there[o.attr].want(s.flp), cache)
    s.check_file("after making an item the same as another: ")
    for q in (b, a, b):
        o = rng.choice(paths[q])
        s.edit(o, o.rand(rng, s.flp), cache if rng.random() < 0.7 else {})
        for x in paths[a] + paths[b]:
            s.check(x, cache, "after an item was the same as another: ")
        s.check_file("after an item was the same as another: ")
    s.ctx.saw("items made the same as others", tuple(t if t == "#" else x for t, x in a))


def rename(s, rng, areas):
    """Settings which decide how the rest is read: IDs and generator names."""
    events = s.flp.events
    if any(i in (94, 233) and p for i, p in events):  # layers and clips go by the IDs
        return
    used = {struct.unpack("<H", p)[0] for i, p in events if i in (64, 65)}
    hosts = {o.path for o in s.ref.obs if o.area == "plugin"}
    todo = [o for o in s.ref.obs if o.structural and o.area in areas and o.want(s.flp) is not ABSENT
            and (o.attr == "iid" or (o.attr == "internal_name" and not any(h[: len(o.path)] == o.path for h in hosts)))]
    for o in rng.sample(todo, min(len(todo), 3)):
        if o.attr == "iid":
            cur = o.want(s.flp)
            v = rng.choice([x for x in (rng.randrange(1, 20000), rng.randrange(1, 300), cur + 1, cur - 1, cur ^ 1 << rng.randrange(16))
                            if x not in used and 0 < x < 65536] or [next(x for x in range(20001, 65536) if x not in used)])
            used.add(v)
        else:
            v = rng.choice(("", "Sytrus", "".join(rng.choice(gen.ALPHA) for _ in range(rng.randint(1, 12)))))
        s.edit(o, v, {})
        s.check(o, {})
        s.check_file()
        s.check_all(areas, "after renaming: ", {})
        s.check_reparsed(areas)


def alike(flp, rng, ids=(193, 203, 204, 231, 239, 241)):
    """Names which are almost (or just) the ones of others."""
    codec = flpfmt.text_codec(flpfmt.version_of(flp.events))
    for i in ids:
        at = [n for n, e in enumerate(flp.events) if e[0] == i]
        known = [p.decode(codec).rstrip("\0") for j, p in flp.events if j in (i, 201)]
        known = [x for x in known if x] + ["Kick"]
        base = rng.choice(known)
        for n in at:
            if rng.random() < 0.6:
                b = rng.choice((base, base, rng.choice(known)))
                name = rng.choice((b, b, b.swapcase(), b.upper(), b.lower(), b + " ", " " + b, b[:-1], b + "x", b[::-1], str(rng.randrange(5)), str(rng.randrange(5)) + " "))
                try:
                    flp.events[n] = (i, (name + "\0").encode(codec))
                except UnicodeError:
                    pass
    return flp


# C11-C14: structure ---------------------------------------------------------------
STRUCT_PROFILE = {
    "C11": lambda r: dict(channels=r.choice((0, 1, 3, 6, 10)), patterns=r.choice((0, 1, 3)), arrs=r.choice((0, 1)), inserts=r.choice((0, 2)),
                          kinds=r.choice((None, None, ("layer", "sampler"), ("layer", "automation", "clip"), ("clip", "native", "instrument")))),
    "C12": lambda r: dict(channels=r.choice((0, 1, 4)), patterns=r.choice((0, 1, 3, 6, 10)), arrs=r.choice((0, 1, 2)), inserts=0),
    "C13": lambda r: dict(channels=r.choice((0, 1, 4)), patterns=r.choice((0, 1, 4)), arrs=r.choice((0, 1, 2, 4)), inserts=0),
    "C14": lambda r: dict(channels=r.choice((0, 1, 3)), patterns=0, arrs=r.choice((0, 1)), kinds=r.choice((None, ("native", "instrument"))), **many(r, (0, 1, 3, 8))),
}


def structure(pid):
    own = {
        "C11": ("rack", "channel", "points", "layer"),
        "C12": ("patterns", "pattern", "note", "controller", "marker/pattern"),
        "C13": ("arrs", "arr", "track", "item", "target", "marker/arr", "clip"),
        "C14": ("mixer", "insert", "slot", "eq", "plugin"),
    }[pid]

    def run(ctx, rng, k, tier):
        big = [a for a in assets() if len(a[1].events) > 1000]
        if k < 2 and k < len(big):
            flp = big[k][1]
        else:
            flp = gen.make(rng, crowd=crowded(pid, k), **STRUCT_PROFILE[pid](rng))
            if rng.random() < 0.35:
                alike(flp, rng)
        s = Session(ctx, flp)
        s.check_all(own)
        # reached in any other way, it is the same thing
        others = [(p, q) for p, qs in sorted(s.ref.aliases.items()) for q in qs]
        obs_at = collections.defaultdict(list)
        for o in s.ref.obs:
            if o.area in own:
                obs_at[o.path].append(o)
        others = [(p, q) for p, q in others if p in obs_at]
        for p, q in rng.sample(others, min(len(others), 25)):
            try:
                h = s.resolve(q, {})
            except Violation:
                raise
            except Exception as e:
                fail("%s raised %s: %s; expected %s", show_path(q), type(e).__name__, e, show_path(p))
            for o in rng.sample(obs_at[p], min(3, len(obs_at[p]))):
                want = o.want(s.flp)
                got = getattr(h, o.attr)
                if want is ABSENT:
                    ok = got is None or got == o.default
                else:
                    ok = o.codec.same(got, want)
                if not ok:
                    fail("%s.%s is %s, but %s has %s stored", show_path(q), o.attr, brief(got), show_path(p), brief(want))
            ctx.saw("aliases compared", q[-1][0], tuple(x for t, x in q if t == "."))
        for name, n in (("channels", len(s.ref.channels)), ("patterns", len(s.ref.patterns)), ("arrangements", len(s.ref.arrs)), ("inserts", len(s.ref.inserts))):
            ctx.saw("projects by size", name, n)
        if pid == "C11":
            rack = s.project.channels
            for name, i in s.ref.ch_names.items():
                got = rack[name]
                if got.iid != s.ref.chinfo[i]["iid"]:
                    fail("channels[%r] has ID %d, the first channel shown as that has ID %d", name, got.iid, s.ref.chinfo[i]["iid"])
                ctx.saw("lookups by shown name")
            for iid in s.ref.ch_by_iid:
                if rack[iid].iid != iid:
                    fail("channels[%d] has ID %r", iid, rack[iid].iid)
            names = [o for o in s.editable(("rack",)) if o.attr == "name"]
            if 1 < len(names) < 20:  # groups alike until then
                hold, after = {}, {}
                before = {f.path: s.resolve(f.path, hold).group for f in s.ref.facts if f.label == "group"}
                for n, o in enumerate(names):
                    s.edit(o, "group %d" % n)
                s.refresh()
                for f in s.ref.facts:
                    if f.label == "group":
                        s.check_fact(f, after, "after naming all groups: ")
                        got = None if before[f.path] is None else before[f.path].name
                        if got != f.want:
                            fail("the group of %s is called %s after naming all groups, not %s", show_path(f.path), brief(got), brief(f.want))
                ctx.saw("groups renamed", len(names))
        s.check_file()
        # and still so after edits elsewhere, and once saved and parsed again
        cache = {}
        todo = s.editable()
        for _ in range(rng.choice((0, 3, 6)) if todo else 0):
            o = pick(rng, todo)
            s.edit(o, o.rand(rng, s.flp), cache)
        s.check_all(own, "after edits: ")
        s.check_reparsed(own)

    return run


# C15 --------------------------------------------------------------------------
def same_model(a, b):
    """Whether two handles stand for the same stored thing."""
    if type(a) is not type(b):
        return False
    if hasattr(a, "events") and hasattr(b, "events"):
        x, y = [e for e in a.events], [e for e in b.events]
        return len(x) == len(y) and all(p is q for p, q in zip(x, y))
    return public(a) == public(b)


def public(m):
    """Everything a model without events of its own shows."""
    out = []
    for name in sorted(dir(type(m))):
        if name.startswith("_") or callable(getattr(type(m), name)):
            continue
        try:
            v = getattr(m, name)
        except Exception as e:
            v = type(e).__name__
        out.append((name, getattr(v, "iid", None) if hasattr(v, "events") else v))
    return out


def collections_of(s):
    """``(label, getter, how items are indexed, their names, error)``."""
    p, ref = s.project, s.ref
    out = []
    iids = [c["iid"] for c in ref.chinfo]
    out.append(("channels", lambda: p.channels, iids, [c["display_name"] for c in ref.chinfo], True))
    for k, c in enumerate(ref.chinfo):
        if c["kind"] == "Layer":
            kids = [struct.unpack("<H", s.flp.events[n][1])[0] for n in ref.channels[k] if s.flp.events[n][0] == 94]
            out.append(("layer", lambda k=k: [x for x in p.channels][k], kids, [None] * len(kids), False))  # by ID only
        if c["kind"] == "Automation":
            out.append(("automation", lambda k=k: [x for x in p.channels][k], None, None, False))
    named = lambda area, n: [next((o.want(s.flp) for o in ref.obs if o.area == area and o.attr == "name" and o.path == path), ABSENT) for path in n]
    clean = lambda l: [None if x is ABSENT else x for x in l]
    out.append(("patterns", lambda: p.patterns, list(range(len(ref.patterns))), clean(named("pattern", [(refmodel.PA, ("#", k)) for k in range(len(ref.patterns))])), True))
    out.append(("arrangements", lambda: p.arrangements, list(range(len(ref.arrs))), clean(named("arr", [(refmodel.AR, ("#", k)) for k in range(len(ref.arrs))])), True))
    for k in range(len(ref.arrs)):
        nt = len([n for n in ref.arrs[k] if s.flp.events[n][0] == 238])
        for t in range(nt):
            out.append(("track", lambda k=k, t=t: [x for x in [y for y in p.arrangements][k].tracks][t], None, None, False))
    out.append(("mixer", lambda: p.mixer, list(range(-1, len(ref.inserts) - 1)), clean(named("insert", [(refmodel.MX, ("#", k)) for k in range(len(ref.inserts))])), True))
    for k in range(len(ref.inserts)):
        ns = len([n for n in ref.inserts[k] if s.flp.events[n][0] == 98])
        names = clean(named("slot", [(refmodel.MX, ("#", k), ("#", j)) for j in range(ns)]))
        out.append(("insert", lambda k=k: [x for x in p.mixer][k], list(range(ns)), names, False))
    return out


def c15(ctx, rng, k, tier):
    flp = gen.make(rng, channels=rng.choice((0, 1, 3, 6)), patterns=rng.choice((0, 1, 4)), arrs=rng.choice((0, 1, 3)),
                   inserts=rng.choice((0, 1, 5)), mode=rng.choice(("full", "mixed", "sparse")), crowd=crowded("C15", k))
    if rng.random() < 0.4:
        alike(flp, rng)
    s = Session(ctx, flp)
    cols = collections_of(s)
    if len(cols) > 9:
        cols = cols[:1] + rng.sample(cols[1:], 8)
    for label, get, keys, names, strict in cols:
        col = get()
        if label == "arrangements" and not keys:  # iterating asks for the length as well
            try:
                got = len(col)
            except NoModelsFound:
                ctx.saw("collections compared", label, 0)
            else:
                fail("%s: len() of an empty collection is %r, NoModelsFound is documented", label, got)
            continue
        items = [x for x in col]
        n = len(items)
        again = [x for x in col]
        if len(again) != n or not all(same_model(a, b) for a, b in zip(items, again)):
            fail("%s: iterating twice does not yield the same items", label)
        if n == 0 and strict:
            try:
                got = len(col)
            except NoModelsFound:
                pass
            else:
                fail("%s: len() of an empty collection is %r, NoModelsFound is documented", label, got)
        elif label != "automation":  # which has no length
            if len(col) != n:
                fail("%s: len() is %d, but %d items are iterated", label, len(col), n)
        ctx.saw("collections compared", label, n)
        if keys is not None:
            if len(keys) != n:
                fail("%s: %d items are stored, %d are iterated", label, len(keys), n)
            seen = set()
            for key, item in zip(keys, items):
                if key in seen:
                    continue
                seen.add(key)
                if not same_model(col[key], item):
                    fail("%s[%r] is %s, iteration yields %s", label, key, brief(col[key]), brief(item))
                ctx.saw("lookups by index", label, min(n, 8))
            for bad in (max(keys, default=-1) + 1, 70000, -1 if min(keys, default=0) >= 0 else -2, -5):
                if bad in keys:
                    continue
                missing(ctx, label, col, bad)
            first = {}
            for nm, item in zip(names, items):
                if nm is not None and nm not in first:
                    first[nm] = item
            for nm, item in first.items():
                if not same_model(col[nm], item):
                    fail("%s[%r] is %s, the first item of that name is %s", label, nm, brief(col[nm]), brief(item))
                ctx.saw("lookups by name", label)
            for bad in ("no such name", "\u263a", "0", " "):
                if bad not in first:
                    missing(ctx, label, col, bad)
            if first:
                nm = rng.choice(sorted(first))
                for bad in (nm + "x", nm.swapcase(), nm[:-1], " " + nm):
                    if bad not in first and bad:
                        missing(ctx, label, col, bad)
        else:
            for i in range(-n, n):
                if label == "automation" and i < 0:
                    continue
                if not same_model(col[i], items[i]):
                    fail("%s[%d] is not item %d", label, i, i)
                ctx.saw("lookups by index", label, min(n, 8))
            for bad in (n, n + 5):
                try:
                    got = col[bad]
                except (LookupError, ModelNotFound):
                    ctx.saw("failed lookups", label)
                else:
                    fail("%s[%d] of %d items is %s", label, bad, n, brief(got))
        for _ in range(8):
            b = lambda: rng.choice((None, rng.randint(-n - 2, n + 2), rng.randint(0, max(n, 1))))
            sl = slice(b(), b(), rng.choice((None, None, 1, 2, -1, -2, 3)))
            got, want = col[sl], items[sl]
            if len(got) != len(want) or not all(same_model(a, c) for a, c in zip(got, want)):
                fail("%s[%s:%s:%s] gives %d items, the list of %d items has %d there (or others)", label, sl.start, sl.stop, sl.step, len(got), n, len(want))
            ctx.saw("slices compared", label, (sl.start is None, sl.stop is None, sl.step))
    s.check_file()


def missing(ctx, label, col, key):
    try:
        got = col[key]
    except ModelNotFound as e:
        if not isinstance(e, LookupError):
            fail("%s[%r] raised %s which is no lookup error", label, key, type(e).__name__)
        if label in ("channels", "layer") and type(e).__name__ != "ChannelNotFound":
            fail("%s[%r] raised %s, ChannelNotFound is documented", label, key, type(e).__name__)
        ctx.saw("failed lookups", label, type(key).__name__)
    except Exception as e:
        fail("%s[%r] raised %s: %s, a not-found error is documented", label, key, type(e).__name__, e)
    else:
        fail("%s[%r] found %s, which does not exist", label, key, brief(got))


# C16 --------------------------------------------------------------------------
class Unrelated:
    """Nothing any setting could store."""

    __slots__ = ()


def c16(ctx, rng, k, tier):
    if k % 6 == 5 and small_assets():
        flp = rng.choice(small_assets())[1]
    else:
        flp = gen.make(rng, mode=rng.choice(("full", "full", "mixed")), channels=rng.choice((1, 2, 4)), patterns=rng.choice((1, 3)),
                       arrs=rng.choice((0, 1)), inserts=rng.choice((0, 2)))
    s = Session(ctx, flp)
    cache = {}
    todo = [o for o in s.editable() if o.area != "target"]
    for _ in range(10):
        o = pick(rng, todo)
        cur = s.read(o, cache)
        bads = [b for b in o.codec.bad(rng, cur)]
        if isinstance(o, refmodel.TempoObs):
            bads = [b for b in bads if not (b == 999.5 and o.limits()[1] >= 999.5)]
        if not bads:
            continue
        v = rng.choice(bads)
        s.log.append("%s = %s" % (o, brief(v, 60)))
        before = flpfmt.build(s.flp)
        accepted = True
        try:
            setattr(s.resolve(o.path, cache), o.attr, v)
        except Exception:
            accepted = False
            ctx.saw("rejected at assignment", o.area, o.attr, type(v).__name__)
            if not partial(o):
                s.check(o, cache, "after a rejected assignment: ")
                s.check_file("after a rejected assignment: ")
        if accepted:
            dest = ctx.path()
            exists = rng.random() < 0.6
            old = rng.choice((before, b"", b"something else " * 50))
            if exists:
                dest.write_bytes(old)
            try:
                pyflp.save(s.project, dest)
            except Exception:
                ctx.saw("rejected when saving", o.area, o.attr, type(v).__name__)
            else:
                fail("%s = %s, which cannot be stored, was saved: %s", o, brief(v), flpfmt.describe_diff(before, dest.read_bytes()))
            if dest.exists() != exists:
                fail("failed save: destination %s%s", "vanished" if exists else "was created", s.history())
            if exists:
                now = dest.read_bytes()
                if now != old:
                    fail("failed save changed the destination: %d bytes instead of %d%s", len(now), len(old), s.history())
                dest.unlink()
            left = [x for x in ctx.scratch.iterdir()]
            if left:
                fail("failed save left %s behind%s", [x.name for x in left], s.history())
        # repaired, everything works again
        good = o.rand(rng, s.flp)
        if accepted and type(o.codec).__name__ in ("EnumNum", "Color", "Musical", "FormatCodec", "Reverb"):
            arg = build_arg(o, good, cur)
            setattr(s.resolve(o.path, cache), o.attr, arg)
            s.store(o, good)
        elif accepted or rng.random() < 0.5:
            h = s.resolve(o.path, cache)
            setattr(h, o.attr, good if accepted else s.arg(o, good, cache))
            s.store(o, good)
        elif partial(o):
            setattr(s.resolve(o.path, cache), o.attr, s.arg(o, good, cache))
            s.store(o, good)
        s.check(o, cache, "after assigning a valid value again: ")
        s.check_file("after assigning a valid value again: ")
    s.check_reparsed(obs=[o for o in rng.sample(s.ref.obs, min(40, len(s.ref.obs)))])


def partial(o):
    """Two stored numbers assigned at once: the first may have been taken."""
    return type(o.codec).__name__ in ("LoopPos", "Offsets")


def build_arg(o, v, cur):
    return o.codec.arg(cur, v)


# C17 --------------------------------------------------------------------------
def absent_arg(o, v):
    c = getattr(o.codec, "inner", o.codec)
    if isinstance(c, Color):
        return RGBA(*v)
    if isinstance(c, Musical):
        return MusicalTime(*v)
    if isinstance(c, Reverb) and c.part == "type":
        from pyflp.channel import ReverbType

        return ReverbType["B" if v else "A"]
    return v


def c17(ctx, rng, k, tier):
    if k % 6 == 5 and small_assets():
        flp = thin(rng, rng.choice(small_assets())[1], 0.6)
    else:
        flp = gen.make(rng, mode=rng.choice(("sparse", "sparse", "mixed", "full")), cuts=rng.choice((0.0, 0.3, 0.7)),
                       channels=rng.choice((0, 2, 4)), patterns=rng.choice((0, 2)), arrs=rng.choice((0, 1)), inserts=rng.choice((0, 2)))
    s = Session(ctx, flp)
    cache = {}
    gone = [o for o in s.ref.obs if o.want(s.flp) is ABSENT]
    for o in gone:
        s.check(o, cache)
    ro = [o for o in s.ref.obs if o.mode == "ro"]
    n = 0
    rng.shuffle(gone)
    for o in gone[:60] + rng.sample(ro, min(5, len(ro))):
        if o.area == "target":
            continue
        try:
            v = o.rand(rng, s.flp) if o.ev is not None else o.codec.rand(rng, b"")
        except NotImplementedError:
            v = 5
        except (struct.error, AttributeError):
            v = 120 if o.attr == "tempo" else 5
        try:
            setattr(s.resolve(o.path, cache), o.attr, absent_arg(o, v))
        except AttributeError:
            ctx.saw("assignments refused", o.area, kind(o)[1], o.attr, o.ev is None)
        except Exception as e:
            fail("assigning %s, which is not stored, raised %s: %s; expected an attribute error", o, type(e).__name__, e)
        else:
            fail("assigning %s to %s, which is not stored, raised nothing", brief(v), o)
        if o.mode == "rw" or o.ev is None:
            s.check(o, cache, "after a refused assignment: ")
        n += 1
        if n % 20 == 0:
            s.check_file("after refused assignments (last: %s): " % o)
    s.check_file("after refused assignments: ")
    # what is stored can be set nevertheless, next to what is not
    todo = s.editable()
    for _ in range(4 if todo else 0):
        o = pick(rng, todo)
        s.edit(o, o.rand(rng, s.flp), cache)
        s.check(o, cache)
    s.check_file()
    for o in gone[:30]:
        s.check(o, {}, "after other edits: ")


# C18 --------------------------------------------------------------------------
def c18(ctx, rng, k, tier):
    big = [a for a in assets() if len(a[1].events) > 1000]
    if k == 0 and big:
        flp = big[0][1]
    else:
        flp = gen.make(rng, mode=rng.choice(("full", "mixed", "sparse")))
    data = flpfmt.build(flp)
    s = Session(ctx, flp)
    jobs = [("read", o) for o in s.ref.obs] + [("fact", f) for f in s.ref.facts]
    most, fresh = (3000, 0.3) if len(flp.events) < 1000 else (1500, 0.02)
    if len(jobs) > most:
        jobs = rng.sample(jobs, most)
    hosts = sorted({o.path for o in s.ref.obs}, key=repr)
    jobs += [("show", p) for p in rng.sample(hosts, min(40, len(hosts)))]
    jobs += [("show", p[:-1]) for p in rng.sample(hosts, min(10, len(hosts))) if p and (p[-2:-1] or (("", ""),))[0][1] == "eq"]
    jobs += [("lookup", p) for p in hosts if len(p) <= 2][:20]
    jobs += [("compare", p) for p in rng.sample(hosts, min(20, len(hosts)))]
    jobs += [("odd", p) for p in rng.sample(hosts, min(20, len(hosts)))]
    keep = {}
    shown = {}
    for rnd in range(2):
        rng.shuffle(jobs)
        for what, x in jobs:
            cache = {} if rng.random() < fresh else keep
            if what == "read":
                s.check(x, cache, "in a session of reads only: ")
            elif what == "fact":
                s.check_fact(x, cache, "in a session of reads only: ")
            else:
                quiet(ctx, s, rng, what, x, cache, shown)
        got = s.bytes()
        if got != data:
            fail("reading changed what is saved: %s", flpfmt.describe_diff(data, got))
        ctx.saw("saved files compared")
    other = ctx.parse(data)
    if not (s.project == other and other == s.project):
        fail("after reads, the project is not equal to a fresh one")
    for a, b in zip(s.project.mixer, other.mixer):  # those of the fresh one never looked into
        if a != b or b != a:
            fail("after reads, insert %d is not equal to a fresh one", a.iid)
    for (a, h), (b, g) in zip(walk(s.project), walk(other)):
        if h != g:
            fail("after reads, %s is not equal to a fresh one", a)


def quiet(ctx, s, rng, what, path, cache, shown):
    """Operations which may fail, but must not have an effect."""
    h = s.resolve(path, cache)
    if what == "show":
        for f in (repr, str, lambda x: format(x)):
            try:
                out = f(h)
            except (AttributeError, NoModelsFound) as e:  # a VST without the record, an empty collection
                out = type(e).__name__
            except Exception as e:
                fail("%s of %s raised %s: %s", getattr(f, "__name__", "fmt"), show_path(path), type(e).__name__, e)
            key = (path, f.__class__, getattr(f, "__name__", "fmt"))
            if " at 0x" in out or "object at" in out:
                continue
            if shown.setdefault(key, out) != out:
                fail("%s of %s changed from %s to %s", key[2], show_path(path), brief(shown[key]), brief(out))
            ctx.saw("objects shown", type(h).__name__)
    elif what == "lookup":
        for key in ("no such thing", 99999, -99, slice(None), slice(5, None, -1)):
            try:
                h[key]
            except Exception:
                pass
        try:
            len(h)
        except Exception:
            pass
        try:
            99999 in h
        except Exception:
            pass
        ctx.saw("lookups", type(h).__name__)
    elif what == "compare":
        try:
            h == s.resolve(path, {})
            h != s.resolve(path, {})
            h == 5
        except Exception:
            pass
        ctx.saw("comparisons", type(h).__name__)
    else:
        try:
            getattr(h, "nope", None)
            hasattr(h, "events")
            bool(h)
            dir(h)
            for ev in getattr(h, "events", ()):
                repr(ev), ev.size, bytes(ev)
        except Exception:
            pass
        ctx.saw("other reads", type(h).__name__)


def walk(project):
    """Parts of a project which can be compared."""
    out = [("project", project)]
    for i, c in enumerate(project.channels):
        out.append(("channel %d" % i, c))
    for i, c in enumerate(project.patterns):
        out.append(("pattern %d" % i, c))
    try:
        arrs = [a for a in project.arrangements]
    except NoModelsFound:
        arrs = []
    for i, a in enumerate(arrs):
        out.append(("arrangement %d" % i, a))
        for j, t in enumerate(a.tracks):
            out.append(("arrangement %d, track %d" % (i, j), t))
    for i, a in enumerate(project.mixer):
        out.append(("insert %d" % i, a))
        for j, t in enumerate(a):
            out.append(("insert %d, slot %d" % (i, j), t))
    return out


# C19 --------------------------------------------------------------------------
def by_name(s):
    """Further ways to reach objects: names which occur once."""
    out = {}
    for prefix, area, attr in (((refmodel.PA,), "pattern", "name"), ((refmodel.AR,), "arr", "name"), ((refmodel.MX,), "insert", "name")):
        names = collections.defaultdict(list)
        for o in s.ref.obs:
            if o.area == area and o.attr == attr and len(o.path) == 2:
                v = o.want(s.flp)
                if v is not ABSENT and v:
                    names[v].append(o.path)
        for nm, ps in names.items():
            if len(ps) == 1:
                out.setdefault(ps[0], []).append(prefix + (("@", nm),))
    names = collections.Counter(c["display_name"] for c in s.ref.chinfo)
    for k, c in enumerate(s.ref.chinfo):
        if c["display_name"] and names[c["display_name"]] == 1:
            out.setdefault((refmodel.CH, ("#", k)), []).append((refmodel.CH, ("@", c["display_name"])))
    slots = collections.defaultdict(list)
    for o in s.ref.obs:
        if o.area == "slot" and o.attr == "name":
            v = o.want(s.flp)
            if v is not ABSENT and v:
                slots[(o.path[:-1], v)].append(o.path)
    for (ins, nm), ps in slots.items():
        if len(ps) == 1:
            out.setdefault(ps[0], []).append(ins + (("@", nm),))
    return out


def alias_paths(s, path, extra, limit=12):
    """Every way to reach the object at ``path``, replacing any of its prefixes."""
    out = [path]
    for n in range(len(path), 0, -1):
        for other in s.ref.aliases.get(path[:n], []) + extra.get(path[:n], []):
            out.append(other + path[n:])
    return out


def shown(h):
    try:
        return re.sub(r"0x[0-9a-f]+", "", repr(h))
    except Exception as e:
        return type(e).__name__


def plain_event(i):
    """Events whose value is a number, a colour, a pair or a text."""
    return i < 192 or i in flpfmt.TEXT_IDS and i not in (199, 200, 201)


def event_value(s, n):
    """What the event stored at ``n`` shows."""
    i, p = s.flp.events[n]
    if i in refmodel.SIMPLE:
        return refmodel.SIMPLE[i].dec(p)
    if i < 192:
        return int.from_bytes(p, "little")
    return p.decode(flpfmt.text_codec(flpfmt.version_of(s.flp.events))).rstrip("\0")


def c19(ctx, rng, k, tier):
    flp = gen.make(rng, mode=rng.choice(("full", "full", "mixed")), channels=rng.choice((1, 3, 5)), patterns=rng.choice((1, 3)),
                   arrs=rng.choice((1, 2)), inserts=rng.choice((1, 3)), cuts=0.0, crowd=crowded("C19", k))
    if rng.random() < 0.4:
        alike(flp, rng)
    s = Session(ctx, flp)
    todo = s.editable()
    extra = by_name(s)
    held = {}  # path -> handle obtained earlier (possibly long before)
    for step in range(rng.choice((5, 12))):
        o = pick(rng, todo)
        paths = alias_paths(s, o.path, extra)
        named = any(t == "@" and isinstance(x, str) and x not in ("volume", "keyboard") + refmodel.ENV_NAMES for p in paths for t, x in p)
        if o.attr == "name" and named:
            paths = [p for p in paths if not any(t == "@" and isinstance(x, str) for t, x in p)]
        use = rng.sample(paths, min(len(paths), 6))
        if o.path not in use:
            use.append(o.path)
        handles = []
        for p in use:
            if p in held and rng.random() < 0.7:
                handles.append((p, held[p], "held"))
            else:
                try:
                    h = s.resolve(p, {})
                except Violation:
                    raise
                except Exception as e:
                    fail("%s raised %s: %s%s", show_path(p), type(e).__name__, e, s.history())
                held[p] = h
                handles.append((p, h, "before"))
        p, h, _ = rng.choice(handles)
        v = o.rand(rng, s.flp)
        arg = s.arg(o, v, {})
        direct = rng.random() < 0.3 and type(o) is refmodel.Obs and plain_event(s.flp.events[o.ev][0])
        if direct:  # the event itself is edited
            before = s.flp.events[o.ev][1]
            s.store(o, v)
            raw = event_value(s, o.ev)
            s.log.append("event #%d.value = %s" % (o.ev, brief(raw, 60)))
            ev = [e for e in s.project.events][o.ev]
            now = ev.value
            try:
                if s.flp.events[o.ev][1] != before:
                    ev.value = RGBA(*raw) if s.flp.events[o.ev][0] in (128, 149, 150) else raw
            except Exception as e:
                fail("assigning %s to an event with %s raised %s: %s%s", brief(raw), brief(now), type(e).__name__, e, s.history())
            ctx.saw("events edited", s.flp.events[o.ev][0])
        else:
            s.log.append("%s.%s = %s" % (show_path(p), o.attr, brief(v, 60)))
            try:
                setattr(h, o.attr, arg)
            except Exception as e:
                fail("assigning raised %s: %s%s", type(e).__name__, e, s.history())
            s.store(o, v)
        if o.area == "target":
            s.ref = RefModel(s.flp)
            todo = s.editable()
            extra = by_name(s)
            held = {q: x for q, x in held.items() if not any(y in ((".", "channel"), (".", "pattern")) for y in q)}
        if o.attr == "name":
            s.ref = RefModel(s.flp)
            todo = s.editable()
            extra = by_name(s)
            held = {q: x for q, x in held.items() if not any(t == "@" and isinstance(y, str) for t, y in q)}
        for q, g, when in handles + [(q, None, "after") for q in use]:
            if g is None:
                if o.attr == "name" and any(t == "@" and isinstance(y, str) for t, y in q):
                    continue
                if o.area == "target" and any(y in ((".", "channel"), (".", "pattern")) for y in q):
                    continue
                g = s.resolve(q, {})
            want = o.want(s.flp)
            got = getattr(g, o.attr)
            if not o.codec.same(got, want):
                fail("edit through %s is not seen through %s (handle from %s): reads %s, expected %s%s", show_path(p), show_path(q), when, brief(got), brief(want), s.history())
            ctx.saw("views compared", tuple(t for t, _ in q), o.area, when)
            if when != "after" and rng.random() < 0.5:
                a, b = shown(g), shown(s.resolve(o.path, {}))
                if a != b:
                    fail("after an edit through %s, %s (handle from %s) shows %s, a new one %s%s", show_path(p), show_path(q), when, brief(a, 300), brief(b, 300), s.history())
                ctx.saw("views shown", type(g).__name__)
        if rng.random() < 0.4:
            s.check_file()
    s.check_file()
    cache = {}
    for o in rng.sample(s.ref.obs, min(60, len(s.ref.obs))):
        s.check(o, cache)
    # all handles collected on the way show the final state
    obs_at = collections.defaultdict(list)
    for o in s.ref.obs:
        obs_at[o.path].append(o)
    back = {}
    for path in obs_at:
        for q in alias_paths(s, path, extra):
            back.setdefault(q, path)
    for q, g in held.items():
        if q in back:
            for o in obs_at[back[q]][:10]:
                want = o.want(s.flp)
                if want is ABSENT or o.raises(s.flp):
                    continue
                got = getattr(g, o.attr)
                if not o.codec.same(got, want):
                    fail("handle %s obtained earlier reads %s = %s, the file has %s%s", show_path(q), o.attr, brief(got), brief(want), s.history())
                ctx.saw("views compared", tuple(t for t, _ in q), o.area, "end")
    deciding_events(s, rng)


DECIDING = {156: ("project",), 66: ("project",), 93: ("project",), 199: ("project",), 67: ("patterns",), 100: ("arrs",), 145: ("rack", "channel"), 94: ("layer", "rack")}


def deciding_events(s, rng):
    """Events which decide what is shown where (or how) are edited themselves."""
    p, events = s.project, s.flp.events
    at = [n for n, e in enumerate(events) if e[0] in DECIDING]
    for n in rng.sample(at, min(len(at), 4)):
        i = events[n][0]
        old = {}
        if rng.random() < 0.5:
            old = {(refmodel.PA,): p.patterns, (refmodel.AR,): p.arrangements, (refmodel.CH,): p.channels}
        s.refresh()
        s.check_all(("project", "patterns", "arrs", "rack"), "before: ", dict(old))
        if i == 199:
            v = [int(x) for x in events[n][1].decode("ascii").rstrip("\0").split(".")]
            value = ".".join(map(str, v[:3] + [rng.randrange(10000)]))
            raw = value.encode("ascii") + b"\0"
        else:
            iids = [struct.unpack("<H", q)[0] for j, q in events if j == (65 if i == 67 else 64)]
            groups = sum(1 for j, _ in events if j == 231)
            choices = {156: lambda: rng.randrange(10000, 522001), 66: lambda: rng.randrange(10, 523), 93: lambda: rng.randrange(1000),
                       67: lambda: rng.choice(iids or [0]), 100: lambda: rng.randrange(max(1, sum(1 for j, _ in events if j == 99))),
                       145: lambda: rng.randrange(-1, groups), 94: lambda: rng.choice(iids)}
            value = choices[i]()
            raw = (value % 256 ** len(events[n][1])).to_bytes(len(events[n][1]), "little")
        s.log.append("event #%d.value = %s" % (n, brief(value, 60)))
        if raw != events[n][1]:
            [e for e in p.events][n].value = value
            events[n] = (i, raw)
        s.check_all(DECIDING[i], "after an event was edited: ", old)
        s.ctx.saw("deciding events edited", i)
    s.check_file()


# C20 --------------------------------------------------------------------------
class View:
    """A view of the library, and the list of events it must hold."""

    def __init__(self, tree, parent, label):
        self.tree, self.parent, self.label = tree, parent, label
        self.want = [e for e in tree]

    def line(self):
        v, out = self, []
        while v is not None:
            out.append(v)
            v = v.parent
        return out


def derive(rng, v):
    """Views of a view, by every means there is."""
    t = v.tree
    ids = sorted({int(e.id) for e in v.want})
    if not ids:
        return []
    some = rng.sample(ids, min(len(ids), rng.choice((1, 2, 5))))
    x = rng.choice(some)
    how = rng.randrange(6)
    if how == 0:
        got, label = [t.subtree(lambda e: e.id in some)], "subtree"
    elif how == 1:
        got, label = list(itertools.islice(t.divide(x, *ids), 6)), "divide"
    elif how == 2:
        got, label = list(itertools.islice(t.separate(x), 6)), "separate"
    elif how == 3:
        got, label = list(itertools.islice(t.group(*some), 6)), "group"
    elif how == 4:
        got, label = list(itertools.islice(t.subtrees(lambda e: False if int(e.id) == x else True, -1), 6)), "subtrees"
    else:
        got, label = [t.subtree(lambda e: rng.random() < 0.5)], "random subtree"
    return [View(g, v, v.label + "/" + label) for g in got]


def regrow(ctx, rng, k):
    """Events are taken away and added; the objects of the same project follow."""
    if rng.random() < 0.2 and small_assets():
        full = rng.choice(small_assets())[1]
    else:
        full = gen.make(rng, mode="full", channels=rng.choice((1, 3)), patterns=rng.choice((1, 2)), arrs=rng.choice((1, 1, 2)), inserts=rng.choice((1, 2)), unknown=0.0)
    n = len(full.events)
    free = [j for j, (i, _) in enumerate(full.events) if i not in VITAL]
    without = [set(rng.sample(free, min(len(free), rng.choice((1, 3, 10, 40))))) for _ in "ab"]
    make = lambda gone: Flp(full.fmt, full.nch, full.ppq, [e for j, e in enumerate(full.events) if j not in gone])
    s = Session(ctx, make(without[0]))
    spare = dict(zip((j for j in range(n) if j not in without[1]), ctx.parse(flpfmt.build(make(without[1]))).events))
    s.check_all(where="before any change: ")
    have = [j for j in range(n) if j not in without[0]]

    def now(where):
        s.flp = make({j for j in range(n) if j not in have})
        s.original = s.flp.copy()
        s.ref = RefModel(s.flp)
        s.check_file(where)
        s.check_all(where=where)
        ctx.saw("models read after adding and removing events", n - len(have))

    for what, todo in (("removing", [j for j in have if j in without[1]]), ("adding", [j for j in range(n) if j in without[0] and j not in without[1]])):
        rng.shuffle(todo)
        for j in todo:
            i = full.events[j][0]
            if what == "removing":
                own = [x for x in have if full.events[x][0] == i]
                tree, at = s.project.events, own.index(j)
                if rng.random() < 0.3:  # through a view which holds all of them
                    name = rng.choice(("channels", "mixer", "patterns", "arrangements"))
                    t = getattr(s.project, name).events
                    if t.count(i) == len(own):
                        tree = t
                s.log.append("remove(%d, %d)" % (i, at))
                tree.remove(i, at)
                have.remove(j)
            else:
                at = len([x for x in have if x < j])
                s.log.append("insert(%d, %d)" % (at, i))
                s.project.events.insert(at, spare[j])
                have.insert(at, j)
            ctx.saw("operations", "project." + what, i)
        if todo:
            now("after %s events: " % what)
    todo = s.editable()
    for _ in range(5 if todo else 0):
        o = pick(rng, todo)
        s.edit(o, o.rand(rng, s.flp))
        s.check(o)
    s.check_file("edits after adding and removing events: ")


def c20(ctx, rng, k, tier):
    if k % 5 == 4:
        return regrow(ctx, rng, k)
    if k % 3 == 0:
        flp = gen.make(rng, channels=rng.choice((1, 3)), patterns=rng.choice((1, 2)), arrs=rng.choice((0, 1)), inserts=rng.choice((1, 2)),
                       crowd=CROWD["C20"][k // 30 % 6] if k % 10 == 3 else None)
    elif k % 3 == 1:
        flp = gen.stream(rng)
    else:
        ids = rng.sample([0, 5, 64, 21, 98, 147, 130, 194, 203, 210], rng.randint(1, 5))
        flp = Flp(0, 1, 96, [(199, b"20.8.4\0")])
        for _ in range(rng.randint(1, 25)):
            i = rng.choice(ids)
            n = flpfmt.fixed_size(i)
            flp.events.append((i, gen.rbytes(rng, n) if n and i != 0 else b"\1" if i == 0 else b"" if i in flpfmt.TEXT_IDS else gen.rbytes(rng, rng.randint(0, 5))))
    data = flpfmt.build(flp)
    ctx.artifact = data
    project = ctx.parse(data)
    # events to add: those of other files, of the same version
    spare = []
    while len(spare) < 60:
        g = gen.Gen(random.Random(rng.random()), mode="full", unknown=0.0, version=flpfmt.version_of(flp.events))
        g.iids, g.pats, g.groups, g.slots_of, g.nins = [0], [1], 1, [], 0
        evs = [next(e for e in flp.events if e[0] == 199)]
        own = sorted({i for i, _ in flp.events if i not in (199, 213)})
        for _ in range(40):
            i = rng.choice(own) if own and rng.random() < 0.6 else rng.randrange(256)
            evs.append(gen.any_event(g, i))
        other = ctx.parse(flpfmt.build(Flp(0, 1, 96, evs)))
        spare += [e for e in other.events][1:]
    raws = {id(e): bytes(e) for e in spare}
    root = View(project.events, None, "project")
    for e, (i, p) in zip(root.want, flp.events):
        raws[id(e)] = flpfmt.event_bytes(i, p)
    views = [root]
    for _ in range(6):  # a tree of views, several levels deep
        views += derive(rng, rng.choice(views))
    if k % 3 == 0:  # and those of the models
        named = [("channels", project.channels), ("patterns", project.patterns), ("mixer", project.mixer)]
        for label, m in named:
            v = View(m.events, root, label)
            views.append(v)
            try:
                kids = [x for x in m]
            except NoModelsFound:
                kids = []
            for x in kids[:3]:
                if x.events.parent is m.events:
                    views.append(View(x.events, v, label + " item"))
    log = []
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))

    def verify(where):
        for v in views:
            if rng.random() < 0.4:  # not asked all the time
                continue
            i = int(rng.choice(v.want).id) if v.want and rng.random() < 0.8 else rng.randrange(256)
            own = [e for e in v.want if int(e.id) == i]
            if v.tree.count(i) != len(own) or (i in v.tree) != bool(own) or not same([e for e in v.tree.get(i)], own) or (own and v.tree.first(i) is not own[0]):
                fail("%s: count, get, first or `in` for ID %d of view %s are off [%s]", where, i, v.label, "; ".join(log[-8:]))
            got = [e for e in v.tree]
            if len(got) != len(v.want) or any(a is not b for a, b in zip(got, v.want)):
                fail("%s: view %s holds %s, expected %s [%s]", where, v.label, [int(e.id) for e in got][:40], [int(e.id) for e in v.want][:40], "; ".join(log[-8:]))
            if len(v.tree) != len(v.want) or {int(i) for i in v.tree.ids} != {int(e.id) for e in v.want}:
                fail("%s: len() or ids of view %s are off [%s]", where, v.label, "; ".join(log[-8:]))
            ctx.saw("views compared", v.label.count("/"), v.label.rsplit("/")[-1], min(len(v.want), 20))
        if sorted(root.tree.indexes) != list(range(len(root.want))):
            fail("%s: root indexes are not consecutive [%s]", where, "; ".join(log[-8:]))
        at = {id(e): n for n, e in enumerate(root.want)}
        for v in views:
            if sorted(v.tree.indexes) != [at[id(e)] for e in v.want]:
                fail("%s: indexes of view %s are %s, its events are at %s [%s]", where, v.label, sorted(v.tree.indexes)[:30], [at[id(e)] for e in v.want][:30], "; ".join(log[-8:]))

    def place(v, pos, e):
        """What a list would do, in the view and everything enclosing it."""
        anchor, after = (v.want[pos], 0) if -len(v.want) <= pos < len(v.want) else (v.want[-1], 1)
        for a in v.line():
            i = next(n for n, x in enumerate(a.want) if x is anchor)
            a.want.insert(i + after, e)

    verify("before any change")
    for step in range(rng.choice((4, 12, 25))):
        v = rng.choice(views)
        op = rng.choice(("append", "insert", "insert", "extend", "pop", "pop", "remove", "missing", "derive"))
        if op in ("append", "insert", "extend") and (not v.want or len(spare) < 4):
            continue
        ctx.saw("operations", op, v.label.count("/"))
        if op == "append":
            e = spare.pop()
            log.append("%s.append(%d)" % (v.label, int(e.id)))
            v.tree.append(e)
            place(v, len(v.want), e)
        elif op == "insert":
            e = spare.pop()
            pos = rng.randint(-len(v.want), len(v.want))
            log.append("%s.insert(%d, %d) of %d" % (v.label, pos, int(e.id), len(v.want)))
            v.tree.insert(pos, e)
            place(v, pos, e)
        elif op == "extend":
            es = [spare.pop() for _ in range(rng.choice((0, 1, 2, 3)))]
            log.append("%s += %s" % (v.label, [int(e.id) for e in es]))
            t = v.tree
            t += es if rng.random() < 0.5 else iter(es)
            if t is not v.tree:
                fail("+= gives another view")
            for e in es:
                place(v, len(v.want), e)
        elif op in ("pop", "remove"):
            have = [e for e in v.want if int(e.id) != 199]
            if not have or len(root.want) < 3:
                continue
            e = rng.choice(have)
            own = [x for x in v.want if int(x.id) == int(e.id)]
            n = [i for i, x in enumerate(own) if x is e][0]
            arg = n if rng.random() < 0.7 else n - len(own)
            log.append("%s.%s(%d, %d)" % (v.label, op, int(e.id), arg))
            f = getattr(v.tree, op)
            got = f(e.id, arg) if arg or rng.random() < 0.5 else f(e.id)
            if got is not (e if op == "pop" else None):
                fail("%s returned %s instead of the event [%s]", op, brief(got), "; ".join(log[-8:]))
            for a in v.line():
                a.want = [x for x in a.want if x is not e]
            # views which still hold it (not enclosing v) are out of date
            stale = [w for w in views if any(x is e for x in w.want)]
            views = [w for w in views if not any(s in w.line() for s in stale)]
        elif op == "missing":
            own = collections.Counter(int(e.id) for e in v.want)
            if rng.random() < 0.5:
                free = [i for i in range(256) if i not in own]
                x, n = rng.choice(free), rng.choice((0, 1, -1))
            else:
                if not own:
                    continue
                x = rng.choice(sorted(own))
                n = rng.choice((own[x], own[x] + 3, -own[x] - 1))
            log.append("%s.remove(%d, %d) of %d" % (v.label, x, n, own[x]))
            try:
                (v.tree.pop if rng.random() < 0.5 else v.tree.remove)(x, n)
            except LookupError as e:
                if x not in own and not isinstance(e, KeyError):
                    fail("removing an event of an ID which does not occur raised %s", type(e).__name__)
                ctx.saw("removals refused", type(e).__name__)
            else:
                fail("removing an event which is not there raised nothing [%s]", "; ".join(log[-8:]))
        elif len(views) < 40:
            views += derive(rng, v)
        verify("after %s" % log[-1] if log else op)
        if rng.random() < 0.4:
            want = b"".join(raws[id(e)] for e in root.want)
            got = ctx.save(project)
            if got[22:] != want or got[:18] != data[:18] or int.from_bytes(got[18:22], "little") != len(want):
                fail("saved file is not in the resulting order [%s]", "; ".join(log[-8:]))
            ctx.saw("saved files compared")
    want = b"".join(raws[id(e)] for e in root.want)
    got = ctx.save(project)
    if got[22:] != want:
        fail("saved file is not in the resulting order [%s]", "; ".join(log[-8:]))
    if root.want and int(root.want[0].id) == 199 and not any(int(e.id) == 213 for e in root.want):
        again = ctx.parse(got)
        if [bytes(e) for e in again.events] != [raws[id(e)] for e in root.want]:
            fail("after saving and parsing, the events differ [%s]", "; ".join(log[-8:]))
    # insertion into an empty view: it holds the event, the others keep their order
    empty = [v for v in views if not v.want]
    if empty and spare:
        v, e = rng.choice(empty), spare.pop()
        v.tree.append(e)
        if [x for x in v.tree] != [e] or [x for x in project.events if x is not e] != root.want or len(project.events) != len(root.want) + 1:
            fail("appending to an empty view")
        ctx.saw("operations", "append to empty", v.label.count("/"))


# C21 --------------------------------------------------------------------------
TEMPO_VERSIONS = ((1, 4, 2), (2, 0, 0), (3, 3, 9), (3, 3, 9, 99), (3, 4, 0), (3, 4, 0, 1), (3, 4, 1), (4, 0, 0), (9, 9, 9), (10, 0, 0), (10, 9, 9),
                  (10, 99, 99, 9999), (11, 0, 0), (11, 0, 0, 1), (11, 0, 1), (11, 0), (11, 5, 0), (12, 0, 0), (12, 9, 0), (20, 0, 0), (20, 8, 4, 2576), (21, 0, 3), (24, 1, 1, 4234), (99, 0, 0),
                  (1, 4, 10), (1, 10, 0), (3, 3, 10), (3, 10, 2), (9, 0, 10), (10, 0, 11), (11, 10, 0))


def refused(ctx, label, f, errors, keep):
    try:
        f()
    except errors:
        ctx.saw("values rejected", label)
    except Exception as e:
        fail("%s raised %s: %s; expected %s", label, type(e).__name__, e, errors)
    else:
        fail("%s was accepted", label)
    keep(label)


def c21(ctx, rng, k, tier):
    version = TEMPO_VERSIONS[k % len(TEMPO_VERSIONS)]
    forms = [("new",), ("coarse",), ("coarse", "fine"), ("new", "coarse", "fine"), ("new", "coarse")]
    form = forms[(k // len(TEMPO_VERSIONS) + k) % len(forms)]
    ev = [(199, (".".join(map(str, version)) + "\0").encode())]
    build = rng.random() < 0.6
    if build:
        ev.append((159, struct.pack("<I", version[3] if len(version) > 3 else rng.randrange(1 << 32))))
    for what, i, n in (("new", 156, 4), ("coarse", 66, 2), ("fine", 93, 2)):
        if what in form:
            ev.append((i, (140000 if what == "new" else 140 if what == "coarse" else 0).to_bytes(n, "little")))
    keys = [rng.randrange(132) for _ in range(4)]
    ev.append((65, struct.pack("<H", 1)))
    ev.append((224, b"".join(struct.pack("<IHHIHH", 0, 0, 0, 48, x, 0) + bytes((120, 0, 64, 0, 64, 100, 128, 128)) for x in keys)))
    if rng.random() < 0.5:
        ev.insert(1, (37, b"\1"))
    s = Session(ctx, Flp(rng.choice(flpfmt.FORMATS), rng.randrange(100), rng.choice(flpfmt.PPQS), ev))
    p = s.project
    tempo = [o for o in s.ref.obs if o.attr == "tempo"][0]
    lo, hi = tempo.limits()
    fine_ok = tuple(version[:3]) >= (3, 4, 0)

    def keep(label):
        s.check_file("after %s was rejected: " % label)
        s.check(tempo)

    # tempo
    ints = {lo, lo + 1, hi, hi - 1, 521, 522, 523, 998, 999, 120} | {rng.randint(lo, hi) for _ in range(6)}
    for v in sorted(x for x in ints if lo <= x <= hi):
        s.edit(tempo, v)
        s.check(tempo)
        s.check_file()
        ctx.saw("values accepted", "tempo", version, form, v)
    can_fine = "new" in form or "fine" in form
    if fine_ok and can_fine:
        for v in (lo + 0.0, hi + 0.0, lo + 0.001, hi - 0.001, rng.randint(lo * 1000, hi * 1000) / 1000, 133.337, 521.999):
            s.edit(tempo, v)
            s.check(tempo)
            s.check_file()
            ctx.saw("values accepted", "tempo", version, form, v)
    else:
        if not fine_ok:
            for v in (120.5, 120.0, lo + 0.5, hi - 0.5):
                refused(ctx, "tempo %r for %s" % (v, version), lambda: setattr(p, "tempo", v), TypeError, keep)
    bad = [lo - 1, 0, -1, -120, hi + 1, 1000, 10000, 100000]
    if fine_ok:
        bad += [lo - 0.001, 9.9, hi + 0.001, hi + 0.5, 1e9, -0.5, float("inf"), float("-inf")]
    for v in bad:
        refused(ctx, "tempo %r for %s" % (v, version), lambda: setattr(p, "tempo", v), ValueError, keep)
    # timebase and channel count
    ppq = [o for o in s.ref.obs if o.attr == "ppq"][0]
    for v in flpfmt.PPQS:
        s.edit(ppq, v)
        s.check_file()
        ctx.saw("values accepted", "ppq", v)
    for v in [x for x in (0, 1, 23, 25, 36, 47, 49, 71, 95, 97, 100, 120, 128, 240, 480, 959, 961, 1920, -24, -96, 65536 + 96, rng.randrange(2000)) if x not in flpfmt.PPQS]:
        refused(ctx, "ppq %r" % v, lambda: setattr(p, "ppq", v), ValueError, lambda l: s.check_file("after %s was rejected: " % l))
    nch = [o for o in s.ref.obs if o.attr == "channel_count"][0]
    for v in (0, 1, 2, 255, 256, 999, 65535, rng.randrange(65536)):
        s.edit(nch, v)
        s.check_file()
        ctx.saw("values accepted", "channel_count", v)
    for v in (-1, -2, -65536, -rng.randrange(1, 1 << 20)):
        refused(ctx, "channel_count %r" % v, lambda: setattr(p, "channel_count", v), ValueError, lambda l: s.check_file("after %s was rejected: " % l))
    # note keys
    names = refmodel.Key.NAMES
    notes = [o for o in s.ref.obs if o.attr == "key"]
    for n, o in enumerate(notes):
        for v in [x for x in range(132) if x % 4 == n or x in (0, 131)]:
            name = names[v % 12] + str(v // 12)
            if rng.random() < 0.5:
                s.edit(o, name)
            else:
                setattr(s.resolve(o.path), "key", v)
                s.store(o, v)
            s.check(o)
        s.check_file()
        ctx.saw("values accepted", "key", n)
    o = rng.choice(notes)
    note = s.resolve(o.path)
    for v in (-1, 132, 133, 255, 65536, -132, 1000, "C11", "B11", "C#11", "A#99", "H1", "c5", "Db5", "B#4", "E#4", "C", "C#", "5", "", "#5", "C-1", "C 5", "5C", "C##5", "Cb4", "C5x"):
        refused(ctx, "key %r" % (v,), lambda: setattr(note, "key", v), ValueError, lambda l: (s.check_file("after %s was rejected: " % l), s.check(o)))
    # versions, in every form
    ver = [o for o in s.ref.obs if o.attr == "version"][0]
    for v in ((12, 0, 1), (20, 8, 4, 2576), (11, 5, 0), (24, 1, 1, 0), (20, 0, 0, rng.randrange(1 << 32)), (rng.randint(12, 99), rng.randint(0, 99), rng.randint(0, 99))):
        if (tuple(version[:2]) >= (11, 5)) != (v[:2] >= (11, 5)):
            v = (11, 4, 9) + v[3:]
        for arg in (v, list(v), ".".join(map(str, v)), FLVersion(*v)):
            p.version = arg
            s.store(ver, v)
            s.check(ver)
            s.check_file("after version = %r: " % (arg,))
            if str(p.version) != ".".join(map(str, v)):
                fail("version %s shows as %s", v, p.version)
            ctx.saw("values accepted", "version", len(v), type(arg).__name__, build)
    for v in ("", "1", "1.2", "1.2.3.4.5", "a.b.c", "20.8.x", "20..4", "20.8.4.", (1,), (1, 2), (1, 2, 3, 4, 5), (), "20,8,4",
              ("a", "b", "c"), (20.5, 8, 4), (-1, 2, 3), "20.-8.4", (True, 8, 4), (20, 8, 4, None), FLVersion(20, 8, -4)):
        refused(ctx, "version %r" % (v,), lambda: setattr(p, "version", v), ValueError, lambda l: (s.check_file("after %s was rejected: " % l), s.check(ver)))
    # the limits follow the version as it is now
    now = rng.choice([v for v in TEMPO_VERSIONS if len(v) > 2 and (v[:2] >= (11, 5)) == (tuple(version[:2]) >= (11, 5))])
    p.version = now
    s.store(ver, now)
    tempo.version = now
    lo, hi = tempo.limits()
    s.edit(tempo, hi)
    s.check(tempo)
    refused(ctx, "tempo %r after setting version %s" % (hi + 1, now), lambda: setattr(p, "tempo", hi + 1), ValueError, keep)
    # ordering of versions decides those limits
    vs = [FLVersion(*v) for v in TEMPO_VERSIONS if len(v) >= 3]
    vs += [FLVersion(a.major, a.minor, a.patch, n) for a in rng.sample(vs, 2) for n in (0, 9, 10, rng.randrange(1 << 16))]
    for a in vs:
        for b in vs:
            x = (a.major, a.minor, a.patch, -1 if a.build is None else a.build)
            y = (b.major, b.minor, b.patch, -1 if b.build is None else b.build)
            if (a < b, a > b, a <= b, a >= b, a == b) != (x < y, x > y, x <= y, x >= y, x == y):
                fail("versions %s and %s are ordered wrongly", a, b)
    ctx.saw("versions ordered")


# C22 --------------------------------------------------------------------------
def c22(ctx, rng, k, tier):
    parts = (conv_channels, conv_tracks, conv_colors, conv_tempo, conv_notes, conv_misc, conv_licensee)
    parts[k % len(parts)](ctx, rng, k // len(parts), tier)


def sweep(s, ctx, obs, label, raws):
    """Reads stored values, assigns what was read: nothing changes; and moves on
    to other values of the same range and back."""
    cache = {}
    for o in obs:
        s.check(o, cache)
        got = s.read(o, cache)
        setattr(s.resolve(o.path, cache), o.attr, got)
        s.check(o, cache)
        ctx.saw("stored values converted", label, kind_key(o.want(s.flp)))
    s.check_file("%s, after assigning the values read: " % label)


def kind_key(v):
    return v if isinstance(v, (int, str)) else repr(v)


def conv_channels(ctx, rng, k, tier):
    """Start, length, multiplier, musical time, reverb: many samplers at once."""
    n = 90
    ev = [(199, b"20.8.4\0")]
    values = []
    for j in range(n):
        b = bytearray(gen.rbytes(rng, 168))
        for off, size in ((9, 1), (60, 4), (80, 4), (157, 1), (11, 1)):
            b[off:off + size] = bytes(size)
        b[40:64] = bytes(24)
        struct.pack_into("<i", b, 108, 0)
        at = (k * n + j)
        first = [0, 1, 2, 4096, 4097, 61439, 61440][at] if at < 7 else rng.randint(1, 61440)
        second = rng.randint(0, 61440)
        for off, x in ((133, first), (141, second)):
            struct.pack_into("<HH", b, off, x, 63 if x else 0)
        struct.pack_into("<I", b, 96, at if k % 2 else rng.randrange(1 << 32))
        struct.pack_into("<i", b, 104, rng.choice((0, 1, -1, rng.randint(-20000, 20000), rng.randint(-20000, 20000), rng.randint(-1000000, 1000000))))
        rev = (at % 257) + (65536 if at // 257 % 2 else 0)
        ev += [(64, struct.pack("<H", j)), (21, b"\0"), (215, bytes(b)), (139, struct.pack("<I", rev))]
        values.append((first, second, rev))
    s = Session(ctx, Flp(0, n, 96, ev))
    obs = [o for o in s.ref.obs if o.path and (o.path[-1][1], o.attr) in (("fx", "start"), ("fx", "length"), ("stretching", "multiplier"), ("stretching", "time"), ("reverb", "type"), ("reverb", "mix"))]
    if len(obs) != 6 * n:
        raise AssertionError(len(obs))
    sweep(s, ctx, obs, "channel", values)
    cache = {}
    for o in obs:
        v = o.rand(rng, s.flp)
        if o.attr == "mix":
            v = rng.randint(0, 256)
        s.log = []
        s.edit(o, v, cache)
        s.check(o, cache)
        ctx.saw("values assigned", o.attr, kind_key(v))
    s.log = []
    s.check_file("after assigning other values: ")
    s.check_reparsed(obs=obs)
    # any real number of the range, to the resolution of the stored form
    fx = [o for o in obs if o.attr in ("start", "length")][:40]
    mul = [o for o in obs if o.attr == "multiplier"][:40]
    for o in fx:
        v = rng.choice((rng.random(), rng.random() ** 8, 1.0, 0.0, 2 ** -15 * 1.001))
        if 0 < v < 2 ** -14.9:
            v = 0.5
        h = s.resolve(o.path, cache)
        setattr(h, o.attr, v)
        s.store(o, v)
        got = getattr(h, o.attr)
        stored = o.want(s.flp)
        if not near(got, v, 1.0002) and got != stored:
            fail("%s = %r reads back %r", o, v, got)
        if not near(stored, v, 1.0002):
            raise AssertionError
        ctx.saw("values assigned", o.attr, v)
    for o in mul:
        v = 2 ** rng.uniform(-3, 3) if rng.random() < 0.8 else rng.choice((0.25, 0.5, 1.0, 2.0, 4.0, 1.1, 0.9))
        h = s.resolve(o.path, cache)
        setattr(h, o.attr, v)
        s.store(o, v)
        got = getattr(h, o.attr)
        if not near(got, v, 1.0002):
            fail("%s = %r reads back %r", o, v, got)
        ctx.saw("values assigned", o.attr, v)
    s.check_file("after assigning real numbers: ")
    got = ctx.parse(ctx.save(s.project))
    for c1, c2 in zip(s.project.channels, got.channels):
        for a, b in ((c1.fx.start, c2.fx.start), (c1.fx.length, c2.fx.length), (c1.stretching.multiplier, c2.stretching.multiplier)):
            if not (a == b or near(a, b, 1.0002)):
                fail("reads %r before saving and %r after", a, b)


def near(a, b, f):
    return a == b or (a > 0 and b > 0 and 1 / f <= a / b <= f)


def conv_tracks(ctx, rng, k, tier):
    n = 150
    ev = [(199, b"20.8.4\0"), (99, b"\0\0")]
    for j in range(n):
        b = bytearray(gen.rbytes(rng, 66))
        for off, size in ((12, 1), (21, 27), ):
            b[off:off + size] = bytes(size)
        pct = k * n + j if k < 8 else rng.randint(0, 100000)
        struct.pack_into("<f", b, 13, pct / 100)
        ev.append((238, bytes(b)))
    s = Session(ctx, Flp(0, 0, 96, ev))
    obs = [o for o in s.ref.obs if o.attr in ("height", "color") and o.area == "track"]
    sweep(s, ctx, obs, "track", None)
    cache = {}
    for o in obs:
        v = "%d%%" % rng.randint(0, 1000) if o.attr == "height" else o.rand(rng, s.flp)
        s.log = []
        s.edit(o, v, cache)
        s.check(o, cache)
        ctx.saw("values assigned", o.attr, kind_key(v))
    s.log = []
    s.check_file()
    s.check_reparsed(obs=obs)
    # what is stored in between reads as the nearest percentage
    pl = [(199, b"20.8.4\0"), (99, b"\0\0")]
    want = []
    for j in range(40):
        x = f32(rng.uniform(0, 10))
        if abs(x * 100 - int(x * 100) - 0.5) < 1e-3:
            x = f32(1.0)
        want.append("%d%%" % round(x * 100))
        b = bytearray(66)
        struct.pack_into("<f", b, 13, x)
        pl.append((238, bytes(b)))
    p = ctx.parse(flpfmt.build(Flp(0, 0, 96, pl)))
    got = [t.height for t in [a for a in p.arrangements][0].tracks]
    if got != want:
        fail("track heights read %s, stored are %s", got[:10], want[:10])


def conv_colors(ctx, rng, k, tier):
    """All 256 values of each component, in every kind of colour."""
    perm = [list(range(256)) for _ in range(4)]
    for x in perm:
        rng.shuffle(x)
    n = 256 if k % 3 < 2 else 120  # a mixer has at most 127 inserts
    ev = [(199, b"20.8.4\0")]
    for j in range(n):
        c = bytes(perm[m][j] for m in range(4))
        if k % 3 == 0:
            ev += [(65, struct.pack("<H", j + 1)), (150, c)]
        elif k % 3 == 1:
            ev += [(64, struct.pack("<H", j)), (21, b"\3"), (128, c)]
        else:
            ev += [(149, c), (236, bytes(12)), (147, bytes(4))]
    s = Session(ctx, Flp(0, 0, 96, ev))
    obs = [o for o in s.ref.obs if o.attr == "color" and o.ev is not None]
    if len(obs) != n:
        raise AssertionError
    sweep(s, ctx, obs, "colour", None)
    cache = {}
    for j, o in enumerate(obs):
        if rng.random() < 0.5:
            v = o.rand(rng, s.flp)
        else:
            v = tuple(rng.choice((0.0, 1.0, 0.5, rng.random())) for _ in range(4))
            if any(abs(x * 255 - int(x * 255) - 0.5) < 1e-6 for x in v):
                v = (0.0, 1.0, 0.25, 0.75)
        h = s.resolve(o.path, cache)
        h.color = RGBA(*v)
        got = tuple(h.color)
        raw = tuple(round(x * 255) for x in v)
        if any(abs(a - b) > 0.5 / 255 + 1e-9 for a, b in zip(got, v)):
            fail("colour %s reads back as %s", v, got)
        i, _ = s.flp.events[o.ev]
        saved = bytes(_colour_bytes(s, o))
        if any(abs(a / 255 - b) > 0.501 / 255 for a, b in zip(saved, v)):
            fail("colour %s is stored as %s", v, tuple(saved))
        if all(x * 255 == round(x * 255) for x in v) and tuple(saved) != raw:
            fail("colour %s is stored as %s", v, tuple(saved))
        s.flp.events[o.ev] = (i, saved)
        ctx.saw("values assigned", "color", v)
    s.check_file()
    s.check_reparsed(obs=obs)


def _colour_bytes(s, o):
    ev = [e for e in s.project.events][o.ev] if not hasattr(s, "evlist") else s.evlist[o.ev]
    if not hasattr(s, "evlist"):
        s.evlist = [e for e in s.project.events]
        ev = s.evlist[o.ev]
    return bytes(ev)[1:]


def conv_tempo(ctx, rng, k, tier):
    forms = (((156, 4),), ((66, 2), (93, 2)), ((156, 4), (66, 2), (93, 2)))
    for form in forms:
        version = rng.choice(((20, 8, 4), (11, 0, 0), (10, 0, 0), (3, 4, 0)))
        ev = [(199, (".".join(map(str, version)) + "\0").encode())]
        ms = rng.randint(10000, 522000)
        for i, size in form:
            ev.append((i, {156: ms, 66: ms // 1000, 93: ms % 1000}[i].to_bytes(size, "little")))
        s = Session(ctx, Flp(0, 0, 96, ev))
        o = [o for o in s.ref.obs if o.attr == "tempo"][0]
        s.check(o)
        s.project.tempo = s.project.tempo
        s.check_file("tempo %r assigned to itself: " % s.project.tempo)
        evs = [e for e in s.project.events]
        hi = o.limits()[1] * 1000
        step = 64 if tier == "quick" else 3
        for m in range(10000 + (k * 7 + rng.randrange(step)) % step, hi + 1, step):
            v = m / 1000
            s.project.tempo = v
            if s.project.tempo != v and abs(s.project.tempo - v) > 1e-9:
                fail("tempo %r reads back as %r", v, s.project.tempo)
            for e in evs[1:]:
                want = {156: m, 66: m // 1000, 93: m % 1000}[int(e.id)]
                if e.value != want:
                    fail("tempo %r is stored as %r in event %d, expected %d", v, e.value, int(e.id), want)
            ctx.counts["values assigned"] += 1
        ctx.saw("values assigned", "tempo", form, k, version)
        s.store(o, s.project.tempo)
        s.check_file()
        # any real tempo: nearest 1/1000
        for _ in range(50):
            v = rng.uniform(10, hi / 1000)
            if rng.random() < 0.4:  # just about a whole number
                v = rng.randint(11, hi // 1000 - 1) + rng.choice((-0.0004, -0.00049, -1e-7, 1e-7, 0.0004, 0.9996, 0.9994, 0.0006))
            s.project.tempo = v
            if abs(s.project.tempo - v) > 0.00051:
                fail("tempo %r reads back as %r", v, s.project.tempo)
    # stored values
    for _ in range(30):
        m = rng.randint(10000, 999000)
        p = ctx.parse(flpfmt.build(Flp(0, 0, 96, [(199, b"9.0.0\0"), (66, struct.pack("<H", m // 1000)), (93, struct.pack("<H", m % 1000))])))
        if abs(p.tempo - m / 1000) > 1e-9:
            fail("coarse %d and fine %d read as tempo %r", m // 1000, m % 1000, p.tempo)
        before = ctx.save(p)
        p.tempo = p.tempo
        if ctx.save(p) != before:
            fail("tempo %r assigned to itself changed the file", p.tempo)
        ctx.saw("stored values converted", "tempo", m)


def conv_notes(ctx, rng, k, tier):
    ev = [(199, b"20.8.4\0"), (65, b"\1\0")]
    raw = b"".join(struct.pack("<IHHIHH", 0, 0, 0, 48, x, 0) + bytes(8) for x in range(132))
    ev.append((224, raw))
    s = Session(ctx, Flp(0, 0, 96, ev))
    obs = [o for o in s.ref.obs if o.attr == "key"]
    sweep(s, ctx, obs, "key", None)
    cache = {}
    order = list(range(132))
    rng.shuffle(order)
    for o, x in zip(obs, order):
        s.log = []
        v = refmodel.Key.NAMES[x % 12] + str(x // 12)
        if rng.random() < 0.5:
            s.edit(o, v, cache)
        else:
            s.resolve(o.path, cache).key = x
            s.store(o, x)
        s.check(o, cache)
        ctx.saw("values assigned", "key", x)
    s.log = []
    s.check_file()
    s.check_reparsed(obs=obs)


def conv_misc(ctx, rng, k, tier):
    """Marker positions, dates, versions."""
    ev = [(199, b"20.8.4\0"), (65, b"\1\0")]
    want = []
    for j in range(60):
        sig = j % 2
        pos = rng.choice((0, 1, 96, 0x8000000 - 1, rng.randrange(1 << 27), rng.randrange(1 << 16)))
        ev += [(148, struct.pack("<I", pos + (0x8000000 if sig else 0))), (33, b"\4"), (34, b"\4"), (205, b"\0\0")]
        want.append((pos, sig))
    p = ctx.parse(flpfmt.build(Flp(0, 0, 96, ev)))
    got = [(m.position, 1 if int(m.type) == 0x8000000 else 0) for m in [x for x in p.patterns][0].timemarkers]
    if got != want:
        fail("marker positions and types read %s, stored are %s", got[:6], want[:6])
    ctx.saw("stored values converted", "marker", want[0], want[1])
    import datetime

    for _ in range(40):
        days = rng.choice((44000 + rng.random(), rng.uniform(20000, 70000), float(rng.randint(30000, 60000)), 36526.5))
        spent = rng.choice((0.0, rng.random(), rng.uniform(0, 500)))
        p = ctx.parse(flpfmt.build(Flp(0, 0, 96, [(199, b"20.8.4\0"), (237, struct.pack("<dd", days, spent))])))
        if p.created_on != datetime.datetime(1899, 12, 30) + datetime.timedelta(days=days) or p.time_spent != datetime.timedelta(days=spent):
            fail("dates %r, %r read as %r, %r", days, spent, p.created_on, p.time_spent)
        ctx.saw("stored values converted", "date", days)
    for _ in range(60):
        v = tuple(rng.choice((0, 1, 9, 10, 99, rng.randint(0, 9999))) for _ in range(rng.choice((3, 4))))
        text = (".".join(map(str, v)) + "\0").encode()
        p = ctx.parse(flpfmt.build(Flp(0, 0, 96, [(199, text)])))
        if refmodel.VersionCodec().same(p.version, v) is False or str(p.version) != text[:-1].decode():
            fail("version %s reads as %r (%s)", v, p.version, p.version)
        before = ctx.save(p)
        p.version = p.version
        if ctx.save(p) != before:
            fail("version %s assigned to itself changed the file", p.version)
        p.version = str(p.version)
        if ctx.save(p) != before:
            fail("version %s assigned to itself as text changed the file", p.version)
        ctx.saw("stored values converted", "version", v)


def conv_licensee(ctx, rng, k, tier):
    for version, enc in (((9, 0, 0), "ascii"), ((20, 8, 4), "utf-16-le")):
        c = refmodel.Licensee(enc)
        ev = [(199, (".".join(map(str, version)) + "\0").encode()), (200, c.enc(b"", "x"))]
        s = Session(ctx, Flp(0, 0, 96, ev))
        o = [o for o in s.ref.obs if o.attr == "licensee"][0]
        s.check(o)
        for _ in range(60):
            v = c.rand(rng, b"")
            s.log = []
            s.edit(o, v)
            s.check(o)
            s.project.licensee = s.project.licensee
            s.check_file("licensee %r assigned to itself: " % v)
            ctx.saw("values assigned", "licensee", v)
        # every letter or digit at every place where the jumbling can hold it
        from fields import ALPHA

        for at in range(0, 72):
            for ch in ALPHA if at < 24 or at == k % 72 else (ALPHA[at % len(ALPHA)], "0", "z", "A"):
                v = "q" * at + ch
                if c.dec(c.enc(b"", v)) != v:
                    continue
                p = s.project
                p.licensee = v
                if p.licensee != v:
                    fail("licensee %r reads back as %r", v, p.licensee)
                ctx.saw("values assigned", "licensee", at, ch)
        s.store(o, s.project.licensee)
        s.check_file()


# C23 --------------------------------------------------------------------------
def c23(ctx, rng, k, tier):
    # several projects, interleaved
    n = rng.choice((2, 3, 4))
    shared = gen.make(rng, channels=2, patterns=2, arrs=1, inserts=1)
    ss = []
    for j in range(n):
        flp = shared if j < 2 and rng.random() < 0.6 else gen.make(rng, channels=rng.choice((0, 2)), patterns=1, arrs=rng.choice((0, 1)), inserts=rng.choice((0, 1)))
        ss.append(Session(ctx, flp))
    caches = [{} for _ in ss]
    for step in range(rng.choice((8, 16))):
        j = rng.randrange(len(ss))
        s, cache = ss[j], caches[j]
        op = rng.random()
        todo = s.editable()
        if op < 0.45 and todo:
            o = pick(rng, todo)
            s.edit(o, o.rand(rng, s.flp), cache)
            ctx.saw("interleaved", "edit")
        elif op < 0.6:
            s.check_file()
            ctx.saw("interleaved", "save")
        elif op < 0.75:  # a parse which fails, or a save which does
            data = flpfmt.build(s.flp)
            cut = data[: rng.randrange(len(data))]
            if rng.random() < 0.5 and len(cut) > 23:
                cut = cut[:18] + struct.pack("<I", len(cut) - 22) + cut[22:]
            p = ctx.write(cut)
            try:
                pyflp.parse(p)
            except Exception:
                pass
            p.unlink()
            p = ctx.write(flpfmt.build(Flp(s.flp.fmt, s.flp.nch, s.flp.ppq, [(rng.choice((192, 194, 201, 231)), b"x\0\0\0")] + s.flp.events)))
            try:
                pyflp.parse(p)
            except Exception:
                pass
            else:
                fail("text before the version was accepted after other files had been parsed")
            p.unlink()
            ctx.saw("interleaved", "failing parse")
        elif op < 0.85:
            if todo:
                o = pick(rng, todo)
                bads = o.codec.bad(rng, s.read(o, cache)) if not partial(o) and o.area != "target" else []
                if bads:
                    try:
                        setattr(s.resolve(o.path, cache), o.attr, rng.choice(bads))
                        p = ctx.path()
                        pyflp.save(s.project, p)
                    except Exception:
                        pass
                    # restore it: the session starts over from its shadow
                    fresh = Session(ctx, s.flp)
                    fresh.log = s.log
                    ss[j] = fresh
                    caches[j] = {}
                    ctx.saw("interleaved", "failing save")
        else:
            ss.append(Session(ctx, rng.choice(ss).flp))
            caches.append({})
            ctx.saw("interleaved", "parse")
        other = rng.randrange(len(ss))
        so = ss[other]
        for o in rng.sample(so.ref.obs, min(8, len(so.ref.obs))):
            so.check(o, caches[other], "project %d while others are handled: " % other)
    for s in ss:
        first = s.check_file()
        if s.bytes() != first:
            fail("saving twice gives different bytes")
        a, b = ctx.parse(first), ctx.parse(first)
        if not (a == b and b == a and not (a != b)):
            fail("parsing the same file twice gives projects which are not equal")
        for (label, x), (_, y) in zip(walk(a), walk(b)):
            if not x == y:
                fail("parsing the same file twice: %s is not equal", label)
        ctx.saw("parses compared", len(s.flp.events).bit_length())
    same_path(ctx, rng, [s.flp for s in ss[:3]])
    if k % 2 == 0:
        threads(ctx, rng, [s.flp for s in ss[:4]])
    if k % 3 == 0:
        cold(ctx, rng)


def cold(ctx, rng):
    """The same in another interpreter, where threads are the first to do anything."""
    import json
    import subprocess
    import sys

    seed = str(rng.getrandbits(32))
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "cold.py"), seed],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise RuntimeError("cold.py %s: %s" % (seed, p.stderr.decode("utf8", "replace")[-2000:]))
    res = json.loads(p.stdout.decode().splitlines()[-1])
    ctx.counts["threads on first use: observations"] += res["observed"]
    ctx.counts["threads on first use: switches injected"] += res["gives"]
    ctx.saw("interpreters started for threads", res["threads"], res["gives"].bit_length())
    if res["error"]:
        fail("%s (cold.py %s)", res["error"][0], seed)


def same_path(ctx, rng, flps):
    """Another project under the same name, of the same size and age perhaps."""
    path = ctx.path()
    held = []
    for _ in range(3):
        flp = rng.choice(flps).copy()
        path.write_bytes(flpfmt.build(flp))
        if rng.random() < 0.7:
            os.utime(path, (1.7e9, 1.7e9))
        s = Session(ctx, flp, pyflp.parse(path))
        held.append(s)
        todo = [o for o in s.editable() if not o.codec.text and not o.rec]
        if todo:
            for o in [pick(rng, todo) for _ in range(3)]:
                s.edit(o, o.rand(rng, s.flp))
        if rng.random() < 0.5:
            pyflp.save(s.project, path)
        else:
            path.write_bytes(flpfmt.build(s.flp))
        if rng.random() < 0.7:
            os.utime(path, (1.7e9, 1.7e9))
        t = Session(ctx, s.flp, pyflp.parse(path))
        held.append(t)
        if todo and rng.random() < 0.5:
            o = pick(rng, [o for o in t.editable()])
            t.edit(o, o.rand(rng, t.flp))
        for h in held:
            cache = {}
            for o in rng.sample(h.ref.obs, min(15, len(h.ref.obs))):
                h.check(o, cache, "other contents under the same name: ")
        for h in held[-2:]:
            h.check_file("other contents under the same name: ")
        ctx.saw("interleaved", "same name")
    path.unlink()


def threads(ctx, rng, flps):
    """Several projects, each handled by a thread of its own."""
    import sys

    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice((1e-5, 1e-4, 1e-3)))
    errors, seeds = [], [rng.random() for _ in range(6)]
    bar = threading.Barrier(len(seeds))
    from harness import Ctx as C

    subs = []

    def work(j):
        r = random.Random(seeds[j])
        d = ctx.scratch / ("t%d" % j)
        d.mkdir(exist_ok=True)
        c = C(d)
        subs.append(c)
        try:
            bar.wait(20)
            for rnd in range(2):
                s = Session(c, flps[(j + rnd) % len(flps)])
                cache = {}
                todo = s.editable()
                for _ in range(4):
                    for o in r.sample(s.ref.obs, min(15, len(s.ref.obs))):
                        s.check(o, cache, "thread: ")
                    if todo:
                        o = pick(r, todo)
                        s.edit(o, o.rand(r, s.flp), cache)
                        s.check(o, cache)
                s.check_file("thread: ")
                if j == 0:  # one of them keeps failing
                    p = c.write(b"FLhd\6\0\0\0\0\0\0\0\x60\0FLdt\2\0\0\0\xc3\0")
                    try:
                        pyflp.parse(p)
                    except Exception:
                        pass
                    p.unlink()
                s.check_reparsed(obs=r.sample(s.ref.obs, min(40, len(s.ref.obs))))
        except Exception as e:
            errors.append(e)
        finally:
            for p in d.iterdir():
                p.unlink()
            d.rmdir()

    ts = [threading.Thread(target=work, args=(j,)) for j in range(len(seeds))]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for c in subs:
        for key, v in c.counts.items():
            ctx.counts["threads: " + key] += v
    for e in errors:
        if isinstance(e, Violation):
            raise e
        fail("in a thread: %s: %s", type(e).__name__, e)
    ctx.saw("threaded rounds", len(flps))


# C24 --------------------------------------------------------------------------
def hosts_of(s, all_parts=True):
    """Paths of channels and slots whose plugin can be replaced, by what they take."""
    ev, out = s.flp.events, []
    for k, idxs in enumerate(s.ref.channels):
        if s.ref.chinfo[k]["kind"] == "Instrument":
            out.append(((refmodel.CH, ("#", k)), idxs, refmodel.NATIVE_GENERATORS))
    for k, idxs in enumerate(s.ref.inserts):
        cur, j = [], 0
        for n in idxs:
            if ev[n][0] in refmodel.PLUGIN_IDS or ev[n][0] == 98:
                cur.append(n)
                if ev[n][0] == 98:
                    out.append(((refmodel.MX, ("#", k), ("#", j)), cur, refmodel.NATIVE_EFFECTS))
                    cur, j = [], j + 1
    res = []
    for path, idxs, natives in out:
        by = {}
        for n in idxs:
            by.setdefault(ev[n][0], n)
        if 201 in by and (not all_parts or 212 in by and 213 in by):
            name = ev[by[201]][1].decode(s.ref.enc).rstrip("\0")
            res.append((path, by, name, natives))
    return res


def c24(ctx, rng, k, tier):
    mk = lambda: gen.make(rng, mode="full", channels=rng.choice((2, 4)), kinds=("native", "instrument"), patterns=0, arrs=0, crowd=crowded("C24", k),
                          inserts=rng.choice((1, 2, 3)), plugins=("native", "native", "vst", "vst", "unknown") if rng.random() < 0.5 else ("native", "vst"))

    def session():
        s = Session(ctx, mk())
        hosts = hosts_of(s)
        if len(hosts) < 2 or rng.random() < 0.6:
            return s
        flp = s.flp.copy()
        gone = {by[rng.choice((212, 213))] for _, by, _, _ in rng.sample(hosts, rng.randint(1, len(hosts) // 2))}
        flp.events = [e for n, e in enumerate(flp.events) if n not in gone]
        return Session(ctx, flp)

    a = session()
    ss = [a] if rng.random() < 0.4 else [a, session()]
    known = refmodel.PLUGIN_CLASS
    for step in range(rng.choice((1, 2, 4, 6))):
        src, dst = rng.choice(ss), rng.choice(ss)
        sources = [h for h in hosts_of(src, False) if 213 in h[1] and (h[2] and h[2] not in known or h[2] == refmodel.VST or h[2] in h[3])]
        dests = hosts_of(dst, False)
        pairs = [(x, y) for x in sources for y in dests if x[2] not in known or x[2] == refmodel.VST or x[2] in y[3]]
        pairs = [(x, y) for x, y in pairs if not (src is dst and x[0] == y[0])] or pairs
        if not pairs:
            continue
        (sp, sby, sname, _), (dp, dby, dname, _) = rng.choice(pairs)
        if any((i in sby) != (i in dby) for i in (212, 213)):  # no room for a part of it
            try:
                setattr(dst.resolve(dp), "plugin", src.resolve(sp).plugin)
            except AttributeError:
                pass
            else:
                fail("%s.plugin = %s.plugin was accepted, though only one of them stores %s", show_path(dp), show_path(sp),
                     ["window state" if i == 212 else "data" for i in (212, 213) if (i in sby) != (i in dby)])
            for s in ss:
                s.check_file("after a plugin which there is no room for was refused: ")
                s.check_all(("plugin", "channel", "slot"), "after a plugin which there is no room for was refused: ")
            ctx.saw("plugins there is no room for", sname in known, dp[0][1], 212 in sby, 212 in dby, 213 in dby)
            continue
        dst.log.append("%s.plugin = %s.plugin (%s over %s, %s project)" % (show_path(dp), show_path(sp), sname, dname, "same" if src is dst else "other"))
        held = rng.random() < 0.3
        grip = dst.resolve(dp)
        before = grip.plugin
        shown(before)
        keepsake = src.resolve(sp).plugin
        try:
            setattr(dst.resolve(dp), "plugin", keepsake if held else src.resolve(sp).plugin)
        except Exception as e:
            fail("replacing a plugin raised %s: %s%s", type(e).__name__, e, dst.history())
        for i in (212, 213) if 212 in dby else (213,):
            dst.flp.events[dby[i]] = (i, src.flp.events[sby[i]][1])
            dst.original.events[dby[i]] = (i, src.original.events[sby[i]][1])
        dst.flp.events[dby[201]] = (201, (sname + "\0").encode(dst.ref.enc))
        dst.ref = RefModel(dst.flp)
        ctx.saw("plugins replaced", sname, dname, dp[0][1], src is dst)
        for s in ss:
            s.check_file("after replacing a plugin: ")
        mine = [o for o in dst.ref.obs if o.path[: len(dp)] == dp]
        cache = {}
        for o in mine:
            dst.check(o, cache, "after replacing a plugin: ")
        cache2 = {dp: grip}
        if type(before) is type(grip.plugin):  # it is a view of the same place
            cache2[dp + ((".", "plugin"),)] = before
        for o in mine:
            dst.check(o, cache2, "after replacing a plugin, through a handle obtained before: ")
        if rng.random() < 0.5:
            todo = [o for o in dst.editable(("plugin",)) if o.path[: len(dp)] == dp]
            for _ in range(2 if todo else 0):
                o = pick(rng, todo)
                dst.edit(o, o.rand(rng, dst.flp), cache2)
                dst.check(o)
                dst.check_file("editing a plugin through a handle obtained before it was replaced: ")
        for f in dst.ref.facts:
            if f.area == "plugin":
                dst.check_fact(f, cache, "after replacing a plugin: ")
        # each keeps its own from now on
        for s, path in ((dst, dp), (src, sp)):
            todo = [o for o in s.editable(("plugin",)) if o.path[: len(path)] == path]
            for _ in range(rng.choice((0, 1, 3)) if todo else 0):
                o = pick(rng, todo)
                s.edit(o, o.rand(rng, s.flp))
                s.check(o)
                for t in ss:
                    t.check_file("editing a plugin after replacing one: ")
                ctx.saw("edits after replacing", sname, o.attr)
    for s in ss:
        s.check_all(("plugin", "channel", "slot"), "after replacing plugins: ")
        s.check_reparsed(("plugin", "channel", "slot", "insert"))


# C25 --------------------------------------------------------------------------
def c25(ctx, rng, k, tier):
    flp = gen.make(rng, mode=rng.choice(("full", "full", "mixed")), channels=rng.choice((1, 3)), patterns=rng.choice((1, 2)), arrs=rng.choice((0, 1, 2)), inserts=rng.choice((0, 1, 2)), crowd=crowded("C25", k))
    s = Session(ctx, flp)
    other = ctx.parse(flpfmt.build(flp))

    def parts():
        return list(zip(walk(s.project), walk(other)))

    def same(where):
        for (label, x), (_, y) in parts():
            for a, b in ((x, y), (y, x)):
                if not a == b or a != b:
                    fail("%s: %s of two projects with the same data is not equal%s", where, label, s.history())
            ctx.saw("equal pairs", label.split(" ")[0])

    if rng.random() < 0.5:  # one was looked at, the other never
        s.check_all()
        for label, x, y in [("insert", x, y) for x, y in zip(s.project.mixer, other.mixer)] + [("project", s.project, other)]:
            if x != y or not y == x:
                fail("same file, one of them read before: %s is not equal", label)
    same("same file")
    todo = s.editable()
    for _ in range(6):
        o = pick(rng, todo)
        old = o.want(s.flp)
        fields.CLOSE[0] = rng.choice((0.1, 0.8))
        for _ in range(20):
            v = o.rand(rng, s.flp)
            if v != old:
                break
        else:
            continue
        before = list(s.flp.events), (s.flp.fmt, s.flp.nch, s.flp.ppq)
        s.edit(o, v)
        if before == (s.flp.events, (s.flp.fmt, s.flp.nch, s.flp.ppq)):
            continue
        changed = {n for n, e in enumerate(s.flp.events) if e != before[0][n]}
        owner = owners(s, o)
        for (label, x), (_, y) in parts():
            eq = [x == y, y == x, not (x != y), not (y != x)]
            if label in owner and any(eq):
                fail("%s: equal although %s differs (%s, %s)", label, o, brief(old), brief(v))
            if label not in owner and not maybe_shared(o, label) and not all(eq):
                fail("%s: unequal although only %s differs", label, o)
            ctx.saw("differing pairs" if label in owner else "equal pairs", label.split(" ")[0], o.area, o.attr)
        for n, (x, y) in enumerate(zip(s.project.events, other.events)):
            if (n == o.ev or n % 7 == 0) and [x == y, y == x, not x != y, not y != x] != [n not in changed] * 4:
                fail("event #%d (ID %d): == gives %r, != gives %r, although %s differs (%s, %s)", n, x.id, x == y, x != y, o, brief(old), brief(v))
        ctx.saw("events compared", type(o.codec).__name__)
        s.edit(o, old)
        same("after undoing")
    s.check_file()
    # the same edits on both sides
    t = Session(ctx, flp, other)
    t.original = s.original
    for _ in range(4):
        o = pick(rng, todo)
        v = o.rand(rng, s.flp)
        s.edit(o, v)
        t.edit(o, v)
    same("after the same edits")
    # other events: one more, one less, another ID, another order
    ev, a = flp.events, ctx.parse(flpfmt.build(flp))
    owned = {n: ("channel %d" % k) for k, idxs in enumerate(s.ref.channels) for n in idxs}
    owned.update({n: "insert %d" % k for k, idxs in enumerate(s.ref.inserts) for n in idxs})
    free = [n for n, (i, _) in enumerate(ev) if i not in VITAL and i not in flpfmt.TEXT_IDS]
    for _ in range(5 if free else 0):
        n = rng.choice(free)
        i, p = ev[n]
        how = rng.choice(("less", "more", "ID", "order", "shorter", "longer"))
        other = list(ev)
        if how in ("shorter", "longer"):  # one is the beginning of the other
            n = len(ev) - 1
            if how == "shorter" and n not in free:
                how = "longer"
            i, p = ev[n]
        if how in ("less", "shorter"):
            del other[n]
        elif how == "longer":
            other.append((rng.choice(gen.UNKNOWN_BY[0]), b"\0"))
        elif how == "more":
            other.insert(n, (rng.choice(gen.UNKNOWN_BY[0]), b"\0") if rng.random() < 0.5 else (i, p))
        elif how == "ID":
            kin = [x for x in gen.UNKNOWN if x != i and flpfmt.fixed_size(x) == flpfmt.fixed_size(i) and x != 213]
            if not kin or i == 213:
                continue
            other[n] = (rng.choice(kin), p)
        else:
            if n + 1 >= len(ev) or n + 1 not in free or ev[n] == ev[n + 1] or 213 in (i, ev[n + 1][0]):
                continue
            other[n], other[n + 1] = ev[n + 1], ev[n]
        b = ctx.parse(flpfmt.build(Flp(flp.fmt, flp.nch, flp.ppq, other)))
        if a == b or b == a or not (a != b):
            fail("project: equal although event #%d (ID %d) differs (%s)", n, i, how)
        label = owned.get(n)
        if label and how in ("less", "ID"):
            x, y = dict(walk(a)).get(label), dict(walk(b)).get(label)
            if y is not None and (x == y or y == x or not (x != y)):
                fail("%s: equal although its event #%d (ID %d) differs (%s)", label, n, i, how)
        ctx.saw("projects with other events", how, label.split(" ")[0] if label else "", i)
    other_records(ctx, rng, flp)


def other_records(ctx, rng, flp):
    """Lists which hold the same records, but not the same number of times."""
    ev = flp.events
    sizes = {224: (0, 24), 223: (0, 12), 234: (21, 24), 233: (0, 32)}
    lists = []
    for n, (i, p) in enumerate(ev):
        if i in sizes:
            start, size = sizes[i]
            count = (len(p) - start) // size if i != 234 else struct.unpack_from("<I", p, 17)[0]
            if i == 233 and len(p) % 32:
                size, count = 60, len(p) // 60
            elif i == 233 and not len(p) % 60:
                continue
            if count > 2:
                lists.append((n, start, size, count))
    for n, start, size, count in rng.sample(lists, min(2, len(lists))):
        i, p = ev[n]
        recs = [p[start + k * size:start + (k + 1) * size] for k in range(count)]
        x, y, z = rng.sample(range(count), 3)
        recs[y] = recs[x]
        if i == 233:  # on the same track, and of the same kind
            recs[z] = recs[x][:4] + recs[x][4:8] + recs[z][8:12] + recs[x][12:14] + recs[z][14:]
        if recs[x] == recs[z]:
            continue
        if i == 234 and {x, y, z} & {0}:
            continue
        other = list(recs)
        how = rng.choice(("swapped", "counts"))
        if how == "swapped":
            other[y], other[z] = other[z], other[y]
        else:
            other[y] = other[z]
        sides = []
        for r in (recs, other):
            events = list(ev)
            events[n] = (i, p[:start] + b"".join(r) + p[start + count * size:])
            sides.append(Session(ctx, Flp(flp.fmt, flp.nch, flp.ppq, events)))
        own = set()
        for o in sides[0].ref.obs:
            if o.ev == n and o.path[-1] in (("#", y), ("#", z)) and i != 233:
                own |= owners(sides[0], o)
        if i == 233:
            tr = (499 if tuple(sides[0].ref.version[:3]) >= (12, 9, 1) else 198) - struct.unpack_from("<H", recs[x], 12)[0]
            own = {lab for o in sides[0].ref.obs if o.ev == n for lab in owners(sides[0], o) if lab == "project" or lab.endswith(", track %d" % tr)}
        for (label, a), (_, b) in zip(walk(sides[0].project), walk(sides[1].project)):
            if label in own and (a == b or b == a or not (a != b)):
                fail("%s: equal although the records of event #%d (ID %d) differ (%s)", label, n, i, how)
        ctx.saw("projects with other records", how, i)


def owners(s, o):
    """Labels of walk() whose data the setting belongs to."""
    out = {"project"}
    p = o.path
    if not p:
        return out
    if p[0] == refmodel.CH and len(p) > 1 and p[1][0] == "#":
        out.add("channel %d" % p[1][1])
    elif p[0] == refmodel.PA and len(p) > 1 and p[1][0] == "#":
        out.add("pattern %d" % p[1][1])
    elif p[0] == refmodel.AR and len(p) > 1 and p[1][0] == "#":
        out.add("arrangement %d" % p[1][1])
        if len(p) > 3 and p[2] == (".", "tracks"):
            out.add("arrangement %d, track %d" % (p[1][1], p[3][1]))
    elif p[0] == refmodel.MX and len(p) > 1 and p[1][0] == "#":
        out.add("insert %d" % p[1][1])
        if len(p) > 2 and p[2][0] == "#":
            out.add("insert %d, slot %d" % (p[1][1], p[2][1]))
    return out


def maybe_shared(o, label):
    """Parts which hold the setting's event as well, without owning it."""
    return False


# table --------------------------------------------------------------------------
def probe_muted(ctx):
    """Known finding: PLItemBase.muted names a field which does not exist."""
    clip = struct.pack("<IHHIHH", 0, 20480, 20481, 96, 499, 0) + bytes((120, 0, 64, 0, 64, 100, 128, 128)) + struct.pack("<ff", -1.0, -1.0)
    flp = Flp(0, 0, 96, [(199, b"20.8.4\0"), (65, b"\1\0"), (99, b"\0\0"), (233, clip), (238, struct.pack("<I", 1) + bytes(62))])
    p = ctx.parse(flpfmt.build(flp))
    item = [t for t in [a for a in p.arrangements][0].tracks][0][0]
    try:
        item.muted
    except KeyError:
        return "PLItemBase.muted"
    except Exception as e:
        fail("reading PLItemBase.muted raised %s: %s", type(e).__name__, e)
    return None


# C26 --------------------------------------------------------------------------
NASTY = (b"\0", b"\xff", b"\x7f", b"\x80", b"\0\0\0\0", b"\xff\xff\xff\xff", b"\xff\xff\xff\x7f", b"\0\0\0\x80", b"\x00\xd8", b"\0\0\xc0\x7f", b"\xff" * 10, b"\x80" * 9 + b"\1")


def damage(rng, data, other):
    """The same file with some of its bytes after the header changed; the declared
    size is right, so that the damage is found only where it is."""
    b = bytearray(data)
    done = []
    for _ in range(rng.choice((1, 1, 1, 2, 4, 12))):
        if len(b) < 26:
            break
        at = rng.randrange(22, len(b))
        n = rng.choice((1, 1, 2, 4, 8, 20))
        how = rng.choice(("bit", "byte", "nasty", "cut", "insert", "copy", "splice", "swap"))
        if how == "bit":
            b[at] ^= 1 << rng.randrange(8)
        elif how == "byte":
            b[at] = rng.randrange(256)
        elif how == "nasty":
            x = rng.choice(NASTY)
            b[at : at + len(x)] = x
        elif how == "cut":
            del b[at : at + n]
        elif how == "insert":
            b[at:at] = gen.rbytes(rng, n)
        elif how == "copy":
            x = rng.randrange(22, len(b))
            b[at:at] = b[x : x + rng.choice((n, 40, 200))]
        elif how == "splice":
            x = rng.randrange(22, max(23, len(other)))
            b[at : at + n] = other[x : x + rng.choice((n, 60))]
        else:
            x = rng.randrange(22, len(b))
            b[at], b[x] = b[x], b[at]
        done.append(how)
    if len(b) <= 22:
        b += b"\x09\x01"
    b[18:22] = struct.pack("<I", len(b) - 22)
    return bytes(b), tuple(sorted(set(done)))


def hostile(rng):
    """Events of known IDs whose data are of any size and make no sense."""
    g = gen.Gen(rng, mode="sparse", unknown=0.0)
    ev = [(199, (".".join(map(str, g.version)) + "\0").encode("ascii"))]
    base = gen.make(rng, version=g.version).events
    for i, p in base[1:]:
        n = flpfmt.fixed_size(i)
        if rng.random() < 0.15:
            p = gen.rbytes(rng, n if n is not None else rng.choice((0, 1, 2, 3, 5, len(p), len(p) + 1, max(0, len(p) - 1), rng.randrange(300))))
        ev.append((i, p))
    return Flp(rng.choice(flpfmt.FORMATS), rng.randrange(65536), rng.choice(flpfmt.PPQS), ev)


def rummage(rng, project, most):
    """Reads whatever can be reached, in any order; errors are the business of the
    reader, what matters is what becomes of the project."""
    seen = errors = 0
    found = []
    todo = [project]
    while todo and seen < most:
        h = todo.pop(rng.randrange(len(todo)))
        for name in [x for x in dir(type(h)) if not x.startswith("_") and x not in ("events",)]:
            seen += 1
            try:
                v = getattr(h, name)
                if callable(v) or isinstance(v, type):
                    continue
                if type(v) in (int, bool) and h is not project and name != "iid":
                    found.append((h, name, v))
                if type(v).__module__.startswith("pyflp.") and hasattr(v, "events"):
                    todo.append(v)
                if hasattr(v, "__next__"):
                    todo += [x for x in itertools.islice(v, 30) if hasattr(x, "__dict__")]
            except Exception:
                errors += 1
        for read in (lambda: repr(h), lambda: len(h), lambda: [x for x in itertools.islice(iter(h), 30)]):
            seen += 1
            try:
                v = read()
                if isinstance(v, list):
                    todo += [x for x in v if hasattr(x, "__dict__")]
            except Exception:
                errors += 1
    return seen, errors, found


def c26(ctx, rng, k, tier):
    real = [a for a in assets() if len(a[1].events) < 400]
    for step in range(12):
        what = rng.random()
        how = ()
        if what < 0.25:
            data = flpfmt.build(hostile(rng))
            how = ("hostile",)
        else:
            pick_ = lambda: flpfmt.build(rng.choice(real)[1] if real and rng.random() < 0.4 else gen.make(rng) if rng.random() < 0.8 else gen.stream(rng))
            data, how = damage(rng, pick_(), pick_())
        ctx.artifact = data
        try:
            flp = flpfmt.parse(data)
        except flpfmt.FormatError:
            flp = None
        src = ctx.write(data)
        try:
            project = pyflp.parse(src)
        except Exception as e:
            ctx.saw("damaged files rejected", type(e).__name__, how)
            if src.read_bytes() != data:
                fail("parsing a damaged file changed it")
            src.unlink()
            continue
        if src.read_bytes() != data:
            fail("parsing a damaged file changed it")
        src.unlink()
        if flp is None:
            fail("a file with an event which extends past its end was accepted (%s)", how)
        evs = [e for e in project.events]
        if [int(e.id) for e in evs] != [i for i, _ in flp.events]:
            fail("a damaged file (%s) was accepted, but its %d events are not the %d stored ones", how, len(evs), len(flp.events))
        want = flpfmt.build(flp)  # the declared sizes in their shortest form

        def check(where, want=want):
            dst = ctx.path()
            before = None
            if rng.random() < 0.3:
                before = b"there was something" * rng.randint(1, 900)
                dst.write_bytes(before)
            try:
                pyflp.save(project, dst)
            except Exception as e:
                if (dst.read_bytes() if dst.exists() else None) != before:
                    fail("%s: saving raised %s, but changed the destination", where, type(e).__name__)
                ctx.saw("saves refused", type(e).__name__)
                return None
            got = dst.read_bytes()
            dst.unlink()
            if got != want:
                fail("%s: a damaged file (%s) was accepted, but saved with other data: %s", where, "/".join(how), flpfmt.describe_diff(want, got))
            ctx.saw("damaged files kept", how, where.split(" ")[0])
            return got

        first = check("at first")
        seen, errors, found = rummage(rng, project, 400 if tier == "quick" else 1500)
        ctx.counts["reads of damaged projects"] += seen
        ctx.counts["reads of damaged projects which raised"] += errors
        if (check("after reading it") is None) != (first is None):
            fail("a damaged project could be saved only before or only after reading it")
        # an edit elsewhere leaves the damaged data alone
        enc, at = None, None
        for n, (i, p) in enumerate(flp.events):
            if i == 199:
                try:
                    enc = flpfmt.text_codec(flpfmt.version_of([(i, p)]))
                except ValueError:
                    break
            if i == 194 and enc:
                at = n
                break
        if at is not None and not any(i == 194 for i, _ in flp.events[:at]):
            new = "monitor %d" % step
            project.title = new
            flp.events[at] = (194, (new + "\0").encode(enc))
            if project.title != new:
                fail("the title of a damaged project reads as %s after assigning %s", brief(project.title), new)
            if (check("edited", flpfmt.build(flp)) is None) != (first is None):
                fail("whether a damaged project can be saved changed with its title")
            ctx.saw("edits of damaged projects", "title")
        # a number changed somewhere changes no other event, nor the size of its own
        for h, name, v in rng.sample(found, min(len(found), 4)) if first else ():
            try:
                setattr(h, name, not v if type(v) is bool else v ^ 1)
                got = flpfmt.parse(ctx.save(project))
            except Exception as e:
                ctx.saw("edits of damaged projects refused", type(h).__name__, name, type(e).__name__)
                break
            off = [n for n, (x, y) in enumerate(zip(got.events, flp.events)) if x != y]
            if len(got.events) != len(flp.events) or len(off) > 1 or any(len(got.events[n][1]) != len(flp.events[n][1]) for n in off):
                fail("changing %s.%s of a damaged project (%s) from %r: %s", type(h).__name__, name, "/".join(how), v, flpfmt.describe_diff(flpfmt.build(flp), flpfmt.build(got)))
            flp = got
            ctx.saw("edits of damaged projects", type(h).__name__, name)


PROBES = {"C09": [probe_muted]}

# id: (function, quick cases, thorough cases, what counts as one distinct observation)

# C27 --------------------------------------------------------------------------
def opened(folder):
    """Files of ``folder`` this process has open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            at = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if at.startswith(str(folder)):
            out.append(at)
    return out


class room:
    """No file can grow beyond ``n`` bytes in here (as on a disk that is full)."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *_):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


NAMES = ("a.flp", "b c.flp", "\u00e9\u65e5.flp", "%s {0}.flp", "noext", ".hidden", "two..dots.FLP", "x" * 200 + ".flp", "-", "new\nline",
         "~", "~root", "~ x.flp", "$HOME", "${HOME}.flp", "%HOME%", " lead.flp", "trail.flp ", "dot.", "*.flp", "[ab].flp", "?", "file:x.flp", "a\\b.flp", "x.FLP", "x.flp")


def nameable(name):
    """Whether the file system encoding of this process has all characters."""
    try:
        os.fsencode(name)
        return True
    except UnicodeError:
        return False


def c27(ctx, rng, k, tier):
    top = ctx.scratch / ("case%d" % k)
    cwd = os.getcwd()
    user = os.environ.get("HOME")
    os.environ["HOME"] = str(top / "user")  # should names get expanded, nothing real is hit
    try:
        files(ctx, rng, k, top)
    finally:
        os.chdir(cwd)
        if user is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = user
        shutil.rmtree(str(top), ignore_errors=True)


def files(ctx, rng, k, top):
    if k % 5 == 4 and small_assets():
        flp = rng.choice(small_assets())[1]
    else:
        flp = gen.make(rng, channels=rng.choice((0, 1, 2)), patterns=1, arrs=rng.choice((0, 1)), inserts=rng.choice((0, 1)))
    if k % 7 == 6:
        flp.events.append((rng.choice(gen.UNKNOWN_BY[3]), gen.rbytes(rng, 70000)))
    data = flpfmt.build(flp)
    ctx.artifact = data
    home = top / rng.choice([x for x in ("in", "with space", "d\u00e9p\u00f4t") if nameable(x)])
    home.mkdir(parents=True)
    (top / "user").mkdir()
    (home / "folder").mkdir()
    (home / "folder" / "inside").write_bytes(b"inside")
    names = [x for x in NAMES if nameable(x)]
    rng.shuffle(names)
    src, by = home / names[0], home / names[1]
    src.write_bytes(data)
    by.write_bytes(data[:-1] + b"!")

    (top / "far" / "deep").mkdir(parents=True)
    (home / "jump").symlink_to(top / "far" / "deep")
    (home / "jump.flp").symlink_to(top / "far" / "real.flp")
    (top / "far" / names[0]).write_bytes(data[:-1] + b"?")
    (top / "far" / "deep" / "kept").write_bytes(b"kept")
    aliases = {home / "jump.flp": top / "far" / "real.flp"}

    def all_files():
        out = {}
        for p in top.rglob("*"):
            if p.is_symlink():
                out[str(p.relative_to(top))] = os.readlink(str(p))
            elif p.is_file():
                out[str(p.relative_to(top))] = p.read_bytes()
        return out

    def form(path):
        """The path in one of the ways to write it down."""
        n = rng.randrange(7)
        if n == 0:
            return str(path)
        if n == 1:
            return path
        if n == 5:  # there and back
            path = str(path.parent / rng.choice(("", ".")) / "..") + os.sep + path.parent.name + os.sep + path.name
            return rng.choice((str, pathlib.Path))(path)
        if n == 6:
            if path.parent == top / "far":  # where .. leads to depends on the link
                path = str(home / "jump") + "/../" + path.name
                return rng.choice((str, pathlib.Path))(path)
            n = 2
        os.chdir(str(path.parent if n < 4 else top))
        rel = path.relative_to(path.parent if n < 4 else top)
        return str(rel) if n % 2 else rel

    def quiet(what, want):
        left = opened(top)
        if left:
            fail("%s leaves %s open", what, left)
        now = all_files()
        if now != want:
            odd = sorted(x for x in set(now) | set(want) if now.get(x) != want.get(x))
            fail("%s changed other files: %s", what, odd)
        ctx.saw("folders compared", what.split(" (")[0])

    def load(path, what):
        before = all_files()
        stamp = path.stat().st_mtime_ns
        arg = form(path)
        try:
            got = pyflp.parse(arg)
        except Exception as e:
            fail("%s from %r raised %s: %s", what, arg, type(e).__name__, e)
        if path.stat().st_mtime_ns != stamp:
            fail("%s wrote to the file", what)
        quiet(what, before)
        return got

    # what cannot be parsed
    def unparsable():
        which = rng.randrange(4)
        path, err = ((home / "missing.flp", OSError), (home / "folder", OSError), (home / "missing" / names[0], OSError), (by, Exception))[which]
        if which == 3:
            by.write_bytes(data[:rng.choice((0, 3, 21, 22, len(data) - 1))])
        before = all_files()
        arg = form(path) if path.parent.exists() else path
        try:
            pyflp.parse(arg)
        except Exception as e:
            if not isinstance(e, err):
                fail("parsing %r raised %s: %s", arg, type(e).__name__, e)
            ctx.saw("unreadable files", which, type(e).__name__)
        else:
            fail("parsing %r did not raise", arg)
        quiet("failed parse", before)

    if rng.random() < 0.5:
        unparsable()
    s = Session(ctx, flp, load(src, "parsing"))
    unparsable()
    # the project does not need its file any more
    how = rng.randrange(3)
    if how == 0:
        src.unlink()
    elif how == 1:
        src.write_bytes(b"something else")
    todo = s.editable()
    for step in range(4):
        for _ in range(rng.randrange(3) if todo else 0):
            o = pick(rng, todo)
            s.edit(o, o.rand(rng, s.flp))
        want = flpfmt.build(s.flp)
        # no place to save to
        for which in rng.sample(range(5), 2):
            dest = (home / "missing" / "x.flp", home / "folder", by / "x.flp", home / ("y" * 300), src)[which]
            before = all_files()
            if which < 4:
                arg = rng.choice((str, pathlib.Path))(dest)
                limit = contextlib.nullcontext()
            else:
                n = rng.choice((0, 1, 21, 22, len(want) // 2, len(want) - 1, rng.randrange(len(want))))
                n = min(n, len(want) - 1)
                arg = form(dest)
                limit = room(n)
            try:
                with limit:
                    pyflp.save(s.project, arg)
            except OSError as e:
                ctx.saw("failed saves", which, type(e).__name__, n * 4 // len(want) if which == 4 else 0)
            except Exception as e:
                fail("saving to %s raised %s: %s%s", ("a missing folder", "a folder", "a file as a folder", "too long a name", "a full disk")[which], type(e).__name__, e, s.history())
            else:
                fail("saving to %s did not raise%s", ("a missing folder", "a folder", "a file as a folder", "too long a name", "a disk with room for %d bytes of %d" % (n, len(want)) if which == 4 else "")[which], s.history())
            if which == 4:  # what has become of it is not claimed
                now = all_files()
                at = str(src.relative_to(top))
                before.pop(at, None)
                if at in now:
                    before[at] = now[at]
            quiet("failed save (%d)" % which, before)
        cache = {}
        for o in rng.sample(s.ref.obs, min(25, len(s.ref.obs))):
            s.check(o, cache, "after a failed save: ")
        # elsewhere it works
        dest = rng.choice((src, home / rng.choice(names[2:]), home / "folder" / rng.choice(names), top / "z.flp", home / "jump.flp", top / "far" / names[0]))
        before = all_files()
        arg = form(dest)
        if dest.exists() and rng.random() < 0.5:
            dest.chmod(rng.choice((0o600, 0o640, 0o644, 0o755)))
        mode = dest.stat().st_mode if dest.exists() else None
        try:
            with room(len(want)) if rng.random() < 0.2 else contextlib.nullcontext():
                got = pyflp.save(s.project, arg)
        except Exception as e:
            fail("saving to %r raised %s: %s%s", arg, type(e).__name__, e, s.history())
        before[str(aliases.get(dest, dest).relative_to(top))] = want
        quiet("saving", before)
        if mode not in (None, dest.stat().st_mode):
            fail("saving changed the permissions of the file from %o to %o", mode, dest.stat().st_mode)
        ctx.saw("files saved", type(arg).__name__, os.path.isabs(str(arg)), dest.name[:8])
        s2 = load(dest, "parsing again")
        if [bytes(e) for e in s2.events] != [bytes(e) for e in s.project.events]:
            fail("the saved file has other events than the project%s", s.history())


CHECKS = {
    "C01": (c01, 800, 12000, "kinds of files (real, thinned, random order, generated; by version) and (event ID, size class) pairs which were saved byte for byte"),
    "C02": (c02, 1000, 9000, "(event ID, size class) pairs whose ID, size, data and value were compared, and shapes of groupings compared with lists"),
    "C03": (c03, 48, 800, "kinds of damage (and errors raised for them); every damaged file was rejected and left as it was"),
    "C04": (c04, 320, 5000, "(encoding, length class, setting) of texts assigned and read back, text events compared, settings read"),
    "C05": (settings("C05"), 1000, 9000, "(setting, class of value) pairs read or assigned, each compared with the reference reading and the expected file"),
    "C06": (settings("C06"), 240, 4000, "(setting, class of value) pairs read or assigned, each compared with the reference reading and the expected file"),
    "C07": (settings("C07"), 320, 5000, "(setting, class of value) pairs read or assigned, each compared with the reference reading and the expected file"),
    "C08": (settings("C08"), 320, 5000, "(setting, class of value) pairs read or assigned, each compared with the reference reading and the expected file"),
    "C09": (settings("C09"), 320, 5000, "(setting, class of value) pairs read or assigned, each compared with the reference reading and the expected file"),
    "C10": (settings("C10"), 640, 5000, "(setting, class of value) pairs read or assigned, each compared with the reference reading and the expected file"),
    "C11": (structure("C11"), 320, 5000, "structural facts, settings by class of value, numbers of items and ways to reach them, compared with the reference reading"),
    "C12": (structure("C12"), 600, 6000, "structural facts, settings by class of value, numbers of items and ways to reach them, compared with the reference reading"),
    "C13": (structure("C13"), 600, 6000, "structural facts, settings by class of value, numbers of items and ways to reach them, compared with the reference reading"),
    "C14": (structure("C14"), 500, 5000, "structural facts, settings by class of value, numbers of items and ways to reach them, compared with the reference reading"),
    "C15": (c15, 320, 5000, "(collection, size, kind of access) combinations compared with the list of items"),
    "C16": (c16, 640, 5000, "(setting, type of value, stage of rejection) combinations"),
    "C17": (c17, 640, 5000, "settings found absent and assignments refused"),
    "C18": (c18, 90, 1500, "settings by class of value, facts, kinds of objects shown, looked up or compared in sessions which only read"),
    "C19": (c19, 300, 3000, "(way of access, setting area, age of the handle) combinations compared after an edit"),
    "C20": (c20, 480, 8000, "(operation, depth of view, kind of view, size) combinations compared with a list"),
    "C21": (c21, 240, 1500, "(setting, version, storage form, value) combinations accepted or rejected"),
    "C22": (c22, 140, 1400, "distinct values converted, in either direction"),
    "C23": (c23, 60, 1500, "kinds of interleaved operations and settings read while other projects were handled"),
    "C24": (c24, 240, 4000, "(source plugin, destination plugin, host, same or other project) combinations"),
    "C26": (c26, 300, 3000, "(kind of damage, outcome) combinations: error raised when parsing, or saved with all of the stored data (at first, after reading everything, after an edit elsewhere)"),
    "C27": (c27, 300, 9000, "(operation, way the file is named, reason of failure) combinations, after which open files, folders and the project were compared"),
    "C25": (c25, 180, 4000, "(part, setting) pairs whose equality was decided"),
}
