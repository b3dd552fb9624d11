"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
NA = {
    "P21": "Classification of an address or a tag is a pure function of one string: no scheduling, time, I/O, randomness or second party for a simulator to control, so deterministic simulation has nothing to decide. (Where it matters to the running system it is judged through P01, P02, P10, P12 and P14.)",
}
NOTE = ("Seeded deterministic simulation of the real library and the real asyncio scheduler and transport over simulated sockets, clock and "
        "entropy, against a reference gateway written from docs/original; holds on every explored run only. Trusts the simulator (TCP in-order "
        "delivery, virtual time) and the reference model.")
TECH = {"P19": "deterministic simulation with fault injection, differential (alone vs. together)"}
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python check.py {p['id']}",
        "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": TECH.get(p["id"], "deterministic simulation with fault injection, seeded search against a reference model"),
        "level": "exploration",
        "level_note": NOTE,
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --help",
     "hooks": {"guard": "PYOWN_SIM", "enable": "not needed: the seams are asyncio's event loop, the socket layer, datetime/time and os.urandom, "
                                               "replaced from outside; /repo contains no hooks", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "check.py PXX [--seed N --runs N --jobs N]; check.py --replay FILE reproduces a violation; check.py PXX --show RUN prints one run."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
