#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = "runtime monitoring: an online monitor compares what the running library reads, raises and saves with an independent reference reading of the file"
T = {
    "C01": "runtime monitoring of parse/save: offline byte-for-byte comparison of every saved file with its original, over generated, real, thinned and random streams",
    "C02": "runtime monitoring of the event stream: every event, value and grouping is compared with a list kept by the monitor",
    "C03": "runtime monitoring under fault injection: every single-fault header corruption and truncation point of generated files; a monitor watches that parse raises and the file stays as it was",
    "C15": "runtime monitoring of collections: length, iteration, index, name and slice of every collection are compared with a list",
    "C16": "runtime monitoring under fault injection: hostile assignments (and saves that fail); monitor watches the error, the project's reads and the destination's bytes",
    "C18": "runtime monitoring of read-only sessions: repeated reads and saves are compared with the first ones while hostile readers run",
    "C19": "runtime monitoring of aliasing: each edit through one handle is followed by reads through every other handle and compared with a shadow state",
    "C20": "runtime monitoring of event trees: a list-based shadow is kept in step with random operations on nested views and compared after each",
    "C21": "runtime monitoring of setters: accepted and rejected values around every limit are compared with an independent specification",
    "C22": "runtime monitoring of conversions: stored domains are enumerated or sampled and both directions compared with independent formulas",
    "C23": "runtime monitoring of interleaved and multi-threaded sessions (small switch intervals): each project's reads and saved bytes are compared with those of the same history run alone",
    "C24": "runtime monitoring of plugin replacement sequences against a shadow of all files involved",
    "C26": "runtime monitoring under fault injection: damaged and hostile event data; a monitor watches that parse and save either raise or keep every stored byte",
    "C27": "runtime monitoring under fault injection: missing and unwritable places, disks that fill up at any byte; a monitor watches open file descriptors, all files around and the project",
    "C25": "runtime monitoring of ==/!= over pairs of projects and parts whose difference the monitor knows",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    fault = p in ("C03", "C16", "C27")
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": T.get(p, FILE + "; edits are compared with the expected bytes"),
        "level": "fault_enumeration" if fault else "exploration",
        "level_note": ("All fault points of each generated file are tried; the files themselves are sampled." if p == "C03" else
                       "Every reason to fail is tried, the byte at which the disk is full is sampled." if p == "C27" else
                       "Every setting is given values of every hostile class; which files and orders is sampled." if fault else
                       "Generated and real files, seeded; the oracle is exact for every execution observed, the executions are a sample."),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors observe the public API and the saved files. PyFLP is imported from /repo's working tree by the interpreter of /opt/venv.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
