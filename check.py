#!/usr/bin/env python3
"""check.py ID quick|thorough        decide one property on /repo's working tree
check.py --replay FILE               run the failing case of a replay file again

Exit 0: the property held on everything explored. Exit 1: it did not; a line
"VIOLATION property=<id> replay=<path>" says where the failing case is described.
"""

import base64
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
SHARDS = int(os.environ.get("VERIF_SHARDS", "6"))
STALL = 400  # seconds without finishing a case; a case takes a few at most
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")


def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX="/nonexistent")
    e.pop("PYTHONPATH", None)
    return e


def spawn(pid, tier, seed, shard, shards, out):
    return subprocess.Popen([PYTHON, os.path.join(HERE, "worker.py"), pid, tier, str(seed), str(shard), str(shards), out],
                            env=dict(env(), TMPDIR=os.path.dirname(out)), stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"), cwd=HERE)


def at(out):
    try:
        with open(out + ".at") as f:
            return f.read().strip()
    except OSError:
        return None


def run_shard_set(pid, tier, seed, shards, d):
    """Starts every shard; gives the result of each, or why there is none."""
    jobs = {}
    for s in range(shards):
        out = os.path.join(d, "s%d" % s)
        jobs[s] = [spawn(pid, tier, seed, s, shards, out), out, None, time.time(), 0]
    results, lost = {}, {}
    while jobs:
        time.sleep(0.05)
        for s in list(jobs):
            proc, out, last, since, tries = jobs[s]
            now = at(out)
            if now != last:
                jobs[s][2:4] = now, time.time()
            rc = proc.poll()
            if rc is None:
                if time.time() - jobs[s][3] > STALL:
                    proc.kill()
                    proc.wait()
                    lost[s] = ("no progress for %d s" % STALL, now)
                    del jobs[s]
                continue
            if os.path.exists(out):
                with open(out) as f:
                    results[s] = json.load(f)
                del jobs[s]
            elif tries == 0:  # ended by something outside (memory, say): once more
                jobs[s] = [spawn(pid, tier, seed, s, shards, out), out, None, time.time(), 1]
            else:
                with open(out + ".err", "rb") as f:
                    lost[s] = ("worker ended with status %s twice: %s" % (rc, f.read()[-2000:].decode("utf8", "replace")), now)
                del jobs[s]
        if any(r["violation"] for r in results.values()):
            for s in list(jobs):
                jobs[s][0].kill()
                jobs[s][0].wait()
                del jobs[s]
    return results, lost


def known_findings(pid):
    """Listed findings: identifier -> description."""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % pid):
                ident, _, what = line.split(" ", 2)[2].strip().partition(" - ")
                out[ident] = what
    return out


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--setup"]:  # there is nothing to build: say what would be missing
        return subprocess.run([PYTHON, "-c", "import construct, construct_typed, sortedcontainers"], env=env()).returncode
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="pyflp-check-") as d:
        results, lost = run_shard_set(pid, tier, seed, SHARDS, d)
    bad = [r["violation"] for r in results.values() if r["violation"]]
    for why, k in lost.values():
        bad.append({"case": int(k) if k is not None else -1, "what": why, "file": ""})
    listed, known = known_findings(pid), []
    for r in results.values():
        for ident in r["known"]:
            if ident in listed:
                known.append(ident)
            else:
                bad.append({"case": -1, "what": "%s fails" % ident, "file": ""})
    counts, distinct = {}, set()
    for r in results.values():
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        distinct.update(r["distinct_keys"])
    cases = sum(r["cases"] for r in results.values())
    if not bad and (not cases or not distinct):
        bad.append({"case": -1, "what": "the monitors observed nothing", "file": ""})
    rule = subprocess.run([PYTHON, "-c", "import sys;sys.path.insert(0,%r)\nimport checks;print(checks.CHECKS[%r][3])" % (os.path.join(HERE, "lib"), pid)],
                          env=env(), capture_output=True, text=True).stdout.strip()
    ordered = sorted(distinct)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "fault_enumeration" if pid in ("C03", "C16", "C27") else "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(distinct),
            "rule": "Cases are drawn from VERIF_SEED, the property's ID and the case number; a distinct observation: " + rule,
            "observations": dict(sorted(counts.items())),
            "samples": [s for r in results.values() for s in r["samples"]][:6] + ordered[:: max(1, len(ordered) // 12)][:12],
        },
        "assumptions": [
            "the reference reading in lib/ states the FLP layout correctly (it agrees with every real file in tests/assets)",
            "files are drawn from the domain described in DESIGN.md",
        ],
        "known_findings": known,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for ident in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, ident, listed[ident]))
    if bad:
        b = bad[0]
        path = os.path.join(EVIDENCE, "%s-%s-%d.replay.json" % (pid, tier, b["case"]))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "case": b["case"], "what": b["what"], "file": b["file"]}, f, indent=1)
        if b["file"]:
            with open(path[:-5] + ".flp", "wb") as f:
                f.write(base64.b64decode(b["file"]))
        print(b["what"][-3000:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: held in %d cases, %d observations (%d distinct), %.1f s" % (pid, cases, sum(counts.values()), len(distinct), time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    with tempfile.TemporaryDirectory(prefix="pyflp-check-") as d:
        out = os.path.join(d, "out")
        p = spawn(r["property"], r["tier"], r["seed"], "case:%d" % r["case"], 0, out)
        p.wait()
        if os.path.exists(out):
            with open(out) as f:
                v = json.load(f)["violation"]
            if v is None:
                print("case %d of %s held" % (r["case"], r["property"]))
                return 0
            print(v["what"])
        else:
            print(open(out + ".err").read())
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
