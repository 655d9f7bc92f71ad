"""Sessions of the real library next to a shadow of the file, and counters.

A :class:`Session` owns a parsed project (the code under test), the shadow
(:class:`flpfmt.Flp`, what the file must contain after all edits so far) and the
reference reading of it. Every comparison the monitors make is counted, so that
the evidence shows what was observed.
"""

from __future__ import annotations

import collections
import os
import pathlib
import shutil
import sys
import tempfile
import warnings

sys.path.insert(0, os.environ.get("PYFLP_ROOT", "/repo"))
warnings.simplefilter("ignore")

import flpfmt  # noqa: E402
import refmodel  # noqa: E402
from fields import ABSENT  # noqa: E402
from refmodel import RefModel, show_path  # noqa: E402

import pyflp  # noqa: E402
import pyflp.types  # noqa: E402


class Violation(Exception):
    pass


class Ctx:
    """What the monitors of one run observed."""

    def __init__(self, scratch):
        self.scratch = pathlib.Path(scratch)
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.known = {}
        self.n = 0
        self.artifact = None  # bytes of the file of the current case

    def saw(self, what, *key):
        self.counts[what] += 1
        if key:
            self.distinct.add((what,) + key)

    def path(self, suffix=".flp"):
        self.n += 1
        return self.scratch / ("f%d%s" % (self.n, suffix))

    def write(self, data, suffix=".flp"):
        p = self.path(suffix)
        p.write_bytes(data)
        return p

    def parse(self, data):
        p = self.write(data)
        try:
            return pyflp.parse(p)
        finally:
            p.unlink()

    def save(self, project):
        p = self.path()
        try:
            pyflp.save(project, p)
            return p.read_bytes()
        finally:
            if p.exists():
                p.unlink()


def fail(fmt, *args):
    raise Violation(fmt % args if args else fmt)


def brief(x, n=160):
    try:
        s = repr(x)
    except Exception as e:  # repr of a model may fail by itself
        s = "<%s, repr raised %r>" % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + "..."


class Session:
    def __init__(self, ctx, flp, project=None):
        self.ctx, self.flp = ctx, flp.copy()
        self.original = flp.copy()
        data = flpfmt.build(flp)
        if ctx.artifact is None:
            ctx.artifact = data
        self.project = project if project is not None else ctx.parse(data)
        self.ref = RefModel(self.flp)
        self.handles = {}
        self.log = []

    # handles -----------------------------------------------------------------
    def resolve(self, path, cache=None):
        """The object at ``path``; ``cache`` maps paths to objects and lists."""
        if cache is None:
            cache = {}
        if not path:
            return self.project
        if path in cache:
            return cache[path]
        kind, x = path[-1]
        host = self.resolve(path[:-1], cache)
        if kind == ".":
            obj = getattr(host, x)
        elif kind == "#":
            key = (path[:-1], "list")
            if key not in cache:
                cache[key] = [item for item in host]
            if x >= len(cache[key]):
                fail("%s yields %d items, expected more than %d", show_path(path[:-1]), len(cache[key]), x)
            obj = cache[key][x]
        elif kind == "@":
            obj = host[x]
        else:
            sl = host[x : x + 1]
            if len(sl) != 1:
                fail("%s gives %d items", show_path(path), len(sl))
            obj = sl[0]
        if not hasattr(obj, "__next__"):  # an iterator can be used once only
            cache[path] = obj
        return obj

    def read(self, obs, cache=None):
        return getattr(self.resolve(obs.path, cache), obs.attr)

    # monitors ----------------------------------------------------------------
    def check(self, obs, cache=None, where=""):
        """The library shows what the shadow stores."""
        want = obs.want(self.flp)
        try:
            got = self.read(obs, cache)
        except AttributeError as e:
            if obs.raises(self.flp):
                self.ctx.saw("absent VST records read", obs.area, obs.attr)
                return
            fail("%s%s: reading raised %r; file has %s%s", where, obs, e, brief(want), self.history())
        except Violation:
            raise
        except Exception as e:
            fail("%s%s: reading raised %s: %s; file has %s%s", where, obs, type(e).__name__, e, brief(want), self.history())
        if obs.raises(self.flp):
            fail("%s%s: the record is not stored, but reads as %s", where, obs, brief(got))
        if want is ABSENT:
            if got is not None and got != obs.default:
                fail("%s%s: not stored, but reads as %s (expected %s)%s", where, obs, brief(got), brief(obs.default), self.history())
            if got is None and obs.default is not None and obs.ev is None:
                fail("%s%s: not stored, reads as None instead of the default %s", where, obs, brief(obs.default))
            self.ctx.saw("absent settings read", obs.area, obs.attr)
            return
        ok = False
        try:
            ok = obs.codec.same(got, want)
        except Exception:
            pass
        if not ok:
            fail("%s%s: reads as %s, file has %s%s", where, obs, brief(got), brief(want), self.history())
        self.ctx.saw("stored settings read", obs.area, obs.attr, kind_of(want))

    def check_fact(self, fact, cache=None, where=""):
        try:
            got = fact.fn(self.resolve(fact.path, cache))
        except Violation:
            raise
        except Exception as e:
            fail("%s%s: raised %s: %s; expected %s%s", where, fact, type(e).__name__, e, brief(fact.want), self.history())
        if got != fact.want:
            fail("%s%s: got %s, file has %s%s", where, fact, brief(got), brief(fact.want), self.history())
        self.ctx.saw("structural facts checked", fact.area, fact.label)

    def check_all(self, areas=None, where="", cache=None, facts=True):
        cache = {} if cache is None else cache
        self.refresh()
        if facts:
            for f in self.ref.facts:
                if areas is None or f.area in areas:
                    self.check_fact(f, cache, where)
        for o in self.ref.obs:
            if areas is None or o.area in areas:
                self.check(o, cache, where)

    def refresh(self):
        """Facts follow the edits made."""
        if self.log:
            self.ref = RefModel(self.flp)

    def bytes(self):
        return self.ctx.save(self.project)

    def check_file(self, where=""):
        """The saved file is the shadow, byte for byte."""
        want = flpfmt.build(self.flp)
        try:
            got = self.bytes()
        except Exception as e:
            fail("%ssaving raised %s: %s%s", where, type(e).__name__, e, self.history())
        if got != want:
            fail("%ssaved file is not the expected one: %s%s", where, flpfmt.describe_diff(want, got), self.history())
        self.ctx.saw("saved files compared")
        return got

    def check_reparsed(self, areas=None, obs=None, facts=True):
        """A fresh reading of the saved file shows the shadow as well."""
        s = Session(self.ctx, self.flp, self.ctx.parse(flpfmt.build(self.flp)))
        s.log = self.log
        cache = {}
        if obs is not None:
            for o in obs:
                s.check(o, cache, "after saving and parsing: ")
        else:
            s.check_all(areas, "after saving and parsing: ", cache, facts)
        return s

    # edits -------------------------------------------------------------------
    def arg(self, obs, v, cache=None):
        """The value as the library wants it (its enums and named tuples)."""
        cur = self.read(obs, cache)
        if isinstance(obs, refmodel.ClipTarget):
            if obs.attr == "channel":
                return [c for c in self.project.channels][self.ref.ch_by_iid[v]]
            return [p for p in self.project.patterns if p.iid == v][0]
        return obs.codec.arg(cur, v)

    def edit(self, obs, v, cache=None, via=None):
        """Assigns ``v`` through the handle at ``via`` and updates the shadow."""
        path = via if via is not None else obs.path
        self.log.append("%s.%s = %s" % (show_path(path), obs.attr, brief(v, 80)))
        try:
            arg = self.arg(obs, v, cache)
            setattr(self.resolve(path, cache), obs.attr, arg)
        except Violation:
            raise
        except Exception as e:
            fail("assigning %s to %s raised %s: %s%s", brief(v), obs, type(e).__name__, e, self.history())
        self.store(obs, v)
        self.ctx.saw("edits made", obs.area, obs.attr, kind_of(v))

    def store(self, obs, v):
        """Updates the shadow. A value put back to what was read from the file is
        stored the way the file had it (text without a terminator, say)."""
        obs.write(self.flp, v)
        if type(obs) is refmodel.Obs and obs.ev is not None:
            i, old = self.original.events[obs.ev]
            if self.flp.events[obs.ev] == (i, obs.codec.enc(old, v)) and obs.codec.dec(old) == v:
                self.flp.events[obs.ev] = (i, old)

    def editable(self, areas=None):
        return [o for o in self.ref.obs
                if (areas is None or o.area in areas) and o.mode == "rw" and not o.structural and not o.raises(self.flp)
                and o.want(self.flp) is not ABSENT]

    def history(self):
        return "" if not self.log else " [after: %s]" % "; ".join(self.log[-6:])


def kind_of(v):
    """Coarse class of a value, for counting distinct observations."""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, float)):
        return ("-" if v < 0 else "+") + str(len(str(abs(int(v))))) if abs(v) < 1e60 else "big"
    if isinstance(v, (str, bytes)):
        return "%s:%d" % (type(v).__name__, len(v).bit_length())
    if isinstance(v, tuple):
        return ",".join(kind_of(x) for x in v)
    if isinstance(v, dict):
        return "dict:%d" % len(v)
    return type(v).__name__


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="pyflp-verif-")
        return self.dir

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)
