#!/usr/bin/env python3
"""usage: check.py <PROPERTY> [--tier quick|thorough] [--runs N] [--jobs N] | check.py --replay FILE | check.py --show PROP RUN"""
import argparse
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    # identical executions do not depend on it (see selftest.py); fixed only to make reruns byte-identical
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--show", type=int)
    a = ap.parse_args()
    from sim import env, runner

    try:
        env.install()
    except Exception as e:
        print(f"cannot load the code under test: {type(e).__name__}: {e}", file=sys.stderr)
        return 2
    from sim.families import FAMILIES

    if a.replay:
        return runner.replay(a.replay, FAMILIES)
    fam = FAMILIES[a.prop]
    if a.show is not None:
        sc = dict(runner.scenario_of(fam, a.seed, a.show, a.tier), _keep_hist=True)
        print(json.dumps(sc, indent=1, default=str))
        r = runner.run_one(fam, sc)
        for h in r.pop("hist", []):
            print("  ", *h)
        print(json.dumps(r, indent=1))
        return 0
    return runner.check(fam, a.tier, a.seed, a.runs, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
