"""Runs one shard of a check in the interpreter of the repository.

worker.py ID TIER SEED SHARD SHARDS OUT   all cases k with k % SHARDS == SHARD
worker.py ID TIER SEED case:K 0 OUT       case K only
"""

import base64
import collections
import json
import os
import random
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
LIMIT = 8 << 30
resource.setrlimit(resource.RLIMIT_AS, (LIMIT, LIMIT))


def main():
    pid, tier, seed, shard, shards, out = sys.argv[1:]
    from harness import Ctx, Scratch, Violation
    import checks

    fn, nq, nt, _ = checks.CHECKS[pid]
    n = int(os.environ.get("VERIF_CASES") or (nq if tier == "quick" else nt))
    if shard.startswith("case:"):
        ks = [int(shard[5:])]
    else:
        ks = range(int(shard), n, int(shards))
    res = {"cases": 0, "counts": {}, "distinct": 0, "samples": [], "violation": None, "known": []}
    with Scratch() as d:
        ctx = Ctx(d)
        k = -1
        try:
            if shard in ("0", "case:-1"):
                for probe in checks.PROBES.get(pid, []):
                    got = probe(ctx)
                    if got:
                        res["known"].append(got)
            for k in ks:
                if k < 0:
                    continue
                heartbeat(out, k)
                ctx.artifact = None
                rng = random.Random("%s/%s/%d" % (seed, pid, k))
                t0, before = time.time(), sum(ctx.counts.values())
                fn(ctx, rng, k, tier)
                res["cases"] += 1
                for p in ctx.scratch.iterdir():
                    p.unlink()
                if len(res["samples"]) < 2:
                    res["samples"].append({"case": k, "observations": sum(ctx.counts.values()) - before, "seconds": round(time.time() - t0, 3), "file_size": len(ctx.artifact or b"")})
        except Violation as e:
            res["violation"] = violation(ctx, k, str(e))
        except Exception:
            res["violation"] = violation(ctx, k, "unexpected exception:\n" + traceback.format_exc())
    res["counts"] = dict(ctx.counts)
    res["distinct_keys"] = sorted(set(map(repr, ctx.distinct)))
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


def heartbeat(out, k):
    with open(out + ".at", "w") as f:
        f.write(str(k))


def violation(ctx, k, text):
    return {"case": k, "what": text, "file": base64.b64encode(ctx.artifact or b"").decode()}


if __name__ == "__main__":
    main()
