#!/usr/bin/env python3
"""Run checks twice with different numbers of workers and hash seeds; the digests of all calls, results and reports must agree.

usage: tools/determinism.py [C01 ...] [n=<families>]"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["VERIF_DIGESTS"] = "1"
from simkit import core  # noqa: E402

bad = 0
ids = [a for a in sys.argv[1:] if not a.startswith("n=")] or [f"C{i:02d}" for i in range(1, 19)]
n = [int(a[2:]) for a in sys.argv[1:] if a.startswith("n=")]
for pid in ids:
    check = core.load_check(pid)
    total = min(n[0] if n else 60, check.runs["quick"])
    seen = []
    for jobs, hs in ((8, "0"), (3, "12345")):
        os.environ["VERIF_HASHSEED"] = hs
        res, errors = core.run_workers(pid, "quick", 7, total, jobs=jobs, shim=check.shim)
        seen.append({i: d for r in res for i, d in r["digests"]})
        for r in res:
            if r["violation"]:
                print(pid, "VIOLATION", r["violation"]["violation"])
        if errors:
            print(pid, errors)
    a, b = seen
    diff = sorted(i for i in a if a[i] != b.get(i))
    bad += bool(diff) or len(a) != total or len(b) != total
    print(f"{pid}: {total} families, {len(diff)} differ {diff[:10]}", flush=True)
sys.exit(1 if bad else 0)
