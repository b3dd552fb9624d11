#!/usr/bin/env python3
"""Checks of the machinery itself: one seed is one execution.

Runs the same scenarios of every family in different processes, with different PYTHONHASHSEED and in different
order, and compares the complete traces (every event with its time); also that keeping the history changes nothing.
usage: selftest.py [--quick] [--runs N]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
CHILD = r"""
import sys, json
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
from sim import env, runner
env.install()
from sim.families import FAMILIES
seed, n, rev, keep = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] == "1", sys.argv[4] == "1"
out = {}
todo = [(p, i) for p in sorted(FAMILIES) for i in range(n)]
for p, i in (reversed(todo) if rev else todo):
    f = FAMILIES[p]
    sc = runner.scenario_of(f, seed, i, "quick")
    if keep:
        sc = dict(sc, _keep_hist=True)
    r = runner.run_one(f, sc)
    out[f"{p}/{i}"] = [r["trace"], r["error"] or "", sorted(v["key"] for v in r["viols"])]
print(json.dumps(out))
"""


def main():
    n = 6 if "--quick" in sys.argv else 150
    if "--runs" in sys.argv:
        n = int(sys.argv[sys.argv.index("--runs") + 1])
    procs = []
    for hs, rev, keep in (("0", 0, 0), ("1", 1, 0), ("4711", 0, 1), ("random", 1, 0)):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1")
        procs.append((hs, subprocess.Popen([sys.executable, "-c", CHILD % HERE, "1", str(n), str(rev), str(keep)], stdout=subprocess.PIPE, env=env, cwd=HERE)))
    outs = []
    for hs, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            print(f"selftest: child with PYTHONHASHSEED={hs} failed", file=sys.stderr)
            return 2
        outs.append((hs, json.loads(o)))
    ref = outs[0][1]
    bad = 0
    for hs, o in outs[1:]:
        for k in ref:
            if ref[k] != o[k]:
                print(f"selftest: run {k} differs under PYTHONHASHSEED={hs}: {ref[k]} {o[k]}", file=sys.stderr)
                bad += 1
    errs = [k for k, v in ref.items() if v[1]]
    print(f"selftest: {len(ref)} scenarios, 4 executions each: {bad} differ, {len(errs)} harness errors")
    return 1 if bad or errs else 0


if __name__ == "__main__":
    sys.exit(main())
