"""Threads which handle projects in an interpreter that has not parsed anything yet.

cold.py SEED   prints one line of JSON: what was observed, and an error if any.

Whatever the library sets up on first use is set up here by several threads at
the same time. A tracer makes threads give way at random lines of the library,
so that they interleave where they otherwise hardly ever would.
"""

import json
import os
import random
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import flpfmt
import gen
from flpfmt import Flp
from harness import Ctx, Scratch, Session, Violation

import pyflp

SRC = os.path.dirname(os.path.abspath(pyflp.__file__)) + os.sep


def files(rng):
    out = [gen.make(rng, channels=2, patterns=1, arrs=1, inserts=1, unknown=0.3)]
    g = gen.Gen(rng, mode="full", unknown=0.0)
    ids = gen.UNKNOWN[:]
    rng.shuffle(ids)
    ev = [(199, (".".join(map(str, g.version)) + "\0").encode("ascii"))]
    for i in ids[:60]:
        ev.append((i, gen.rbytes(rng, flpfmt.fixed_size(i) or rng.randrange(9))))
    out.append(Flp(0, 1, 96, ev))
    return out


def main():
    seed = sys.argv[1]
    rng = random.Random("cold" + seed)
    flps = files(rng)
    gives = [0]
    chance = rng.choice((0.02, 0.1, 0.4))
    nap = rng.choice((0, 1e-5, 1e-4))
    budget = 6000

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        return line

    yielding = random.Random("yield" + seed)

    def line(frame, event, arg):
        if gives[0] < budget and yielding.random() < chance:
            gives[0] += 1
            time.sleep(nap)
        return line

    errors, observed = [], []
    n = rng.choice((2, 3, 4))
    bar = threading.Barrier(n)

    def work(j, d):
        c = Ctx(d)
        try:
            r = random.Random("%s/%d" % (seed, j))
            flp = flps[1] if rng_first[j] else flps[0]
            path = c.write(flpfmt.build(flp))
            bar.wait(60)
            sys.settrace(tracer)
            for f in (flp, flps[0]):
                if f is not flp:
                    path = c.write(flpfmt.build(f))
                project = pyflp.parse(path)
                sys.settrace(None) if f is not flp else None
                got = [(int(e.id), e.id.value, bytes(e)) for e in project.events]
                want = [(i, i, flpfmt.event_bytes(i, p)) for i, p in f.events]
                if got != want:
                    raise Violation("events of a file parsed by several threads at once differ")
                s = Session(c, f, project)
                s.check_file("first use, by several threads: ")
                cache = {}
                for o in r.sample(s.ref.obs, min(25, len(s.ref.obs))):
                    s.check(o, cache, "first use, by several threads: ")
        except BaseException as e:
            sys.settrace(None)
            errors.append("%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            observed.append(sum(c.counts.values()))

    rng_first = [rng.random() < 0.6 for _ in range(n)]
    sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-4)))
    with Scratch() as d:
        ts = []
        for j in range(n):
            sub = os.path.join(str(d), "t%d" % j)
            os.mkdir(sub)
            ts.append(threading.Thread(target=work, args=(j, sub)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    print(json.dumps({"threads": n, "gives": gives[0], "observed": sum(observed), "error": errors[:1]}))


main()
