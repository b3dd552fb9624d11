"""Seeded search: runs scenarios in forked children, minimises failures, writes evidence and replay files."""
import copy
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_TICK = 2.0         # CPU seconds between two looks at a run (typical run: milliseconds)
CPU_STUCK = 3          # looks without one loop iteration in between = the event loop is blocked
CPU_LIMIT = 90.0       # CPU seconds of one run after which it counts as a harness failure
WALL_TICK = 1.0        # wall seconds between two looks at a run that may be asleep
WALL_STUCK = 5         # looks without CPU use, inside the library = a call of the library blocks the thread
WALL_LIMIT = 180.0     # wall seconds after which a child is killed (harness failure)


# -- one run in a forked child --------------------------------------------------------------------
def child_main(fn, wfd, cpu):
    def out(obj):
        data = json.dumps(obj, default=str).encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]
        os._exit(0)

    seen = [None, 0, 0]

    def stalled(sig, frame):
        seen[2] += 1
        steps = env.CUR.sim.steps if env.CUR.sim is not None else None
        if steps is not None and steps == seen[0]:
            seen[1] += 1
        else:
            seen[0], seen[1] = steps, 0
        if seen[2] * CPU_TICK >= cpu:
            out({"error": f"harness: run used more than {cpu} s of CPU"})
        if seen[1] < CPU_STUCK:
            return
        out({"stall": True, "where": stack(frame)})

    asleep = [None, None, 0]

    def sleeping(sig, frame):
        """A thread that waits for ever (a lock) uses no CPU and never comes back to the event loop."""
        steps = env.CUR.sim.steps if env.CUR.sim is not None else None
        cpu_now = env.real_cpu()
        lib = os.path.realpath(env.REPO) + os.sep
        if steps is not None and steps == asleep[0] and cpu_now - asleep[1] < 0.02 and \
                os.path.realpath(frame.f_code.co_filename).startswith(lib):
            asleep[2] += 1
        else:
            asleep[2] = 0
        asleep[0], asleep[1] = steps, cpu_now
        if asleep[2] >= WALL_STUCK:
            out({"stall": True, "asleep": True, "where": stack(frame)})

    try:
        resource.setrlimit(resource.RLIMIT_CPU, (int(cpu) + 8, int(cpu) + 12))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGPROF, stalled)
        signal.setitimer(signal.ITIMER_PROF, CPU_TICK, CPU_TICK)
        signal.signal(signal.SIGALRM, sleeping)
        signal.setitimer(signal.ITIMER_REAL, WALL_TICK, WALL_TICK)
        r = fn()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        out(r)
    except BaseException:
        out({"error": "harness: " + traceback.format_exc()[-3000:]})


def stack(f):
    where = []
    while f is not None and len(where) < 12:
        where.append(f"{f.f_code.co_filename.rsplit('/', 1)[-1]}:{f.f_lineno}:{f.f_code.co_name}")
        f = f.f_back
    return where


def forked(fn, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            child_main(fn, wfd, cpu)
        finally:
            os._exit(9)
    os.close(wfd)
    buf = b""
    deadline = env.real_monotonic() + wall
    killed = False
    while True:
        left = deadline - env.real_monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if killed:
        return {"error": f"child killed after {wall} s of wall time"}
    if not buf:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            return {"stall": True, "where": [f"killed by signal {os.WTERMSIG(st)}"]}
        return {"error": f"child died, status {st}"}
    return json.loads(buf)


def normal(res):
    """Turn stall reports into violations and fill in the missing fields."""
    base = {"skip": None, "error": None, "viols": [], "sim_t": 0.0, "steps": 0, "faults": {}, "probes": {}, "ops": 0,
            "events": 0, "notes": {}, "trace": "", "il": ""}
    if res.get("stall"):
        base["viols"] = [{"rule": "blocked", "key": "blocked", "t": 0,
                          "detail": ("the code under test blocks the thread for ever, never " if res.get("asleep") else
                                     f"the code under test kept the CPU for more than {CPU_TICK * CPU_STUCK} s without ") +
                                    f"returning to the event loop: {' < '.join(res['where'][:8])}"}]
        base["trace"] = "stall"
        return base
    base.update(res)
    return base


def scenario_of(fam, seed, i, tier):
    sc = fam.gen(random.Random(f"{fam.prop}|{seed}|{i}"), i, tier)
    sc["seed"] = f"{fam.prop}|{seed}|{i}"
    sc["prop"] = fam.prop
    return sc


def run_one(fam, sc):
    return normal(forked(lambda: fam.run(sc)))


# -- known findings ---------------------------------------------------------------------------------
def load_known(prop):
    """Lines `known: property=<id> key=<key> -- text`; a fixed entry suppresses nothing."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                head, text = line[len("known: "):].split(" -- ", 1)
                f = dict(x.split("=", 1) for x in head.split(" ", 1))
                if f["property"] == prop:
                    out[f["key"]] = text
    return out


# -- minimisation -----------------------------------------------------------------------------------
def paths(o, frozen, pre=()):
    if isinstance(o, dict):
        for k in sorted(o):
            if not (pre == () and k in ("seed", "prop", "family")) and k not in frozen:
                yield from paths(o[k], frozen, pre + (k,))
    elif isinstance(o, list):
        yield pre
        for i, v in enumerate(o):
            yield from paths(v, frozen, pre + (i,))


def dict_keys(o, frozen, pre=()):
    if isinstance(o, dict):
        for k in sorted(o):
            if (pre == () and k in ("seed", "prop", "family")) or k in frozen:
                continue
            yield pre, k
            yield from dict_keys(o[k], frozen, pre + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from dict_keys(v, frozen, pre + (i,))


def get(o, path):
    for p in path:
        o = o[p]
    return o


def minimise(fam, sc, keys, budget=45.0, known=()):
    """Greedy delta debugging on the scenario; keeps a violation with the same key."""
    end = env.real_monotonic() + budget
    # entries a smaller scenario must keep to stay a scenario
    frozen = ("act", "data", "op", "n") + tuple(getattr(fam, "frozen", ()))
    tries = 0

    def bad(c):
        nonlocal tries
        tries += 1
        r = run_one(fam, c)
        if r["error"] or r["skip"]:
            return None
        for v in r["viols"]:
            if v["key"] in keys and v["key"] not in known:
                return r
        return None

    best, best_r = sc, None
    progress = True
    while progress and env.real_monotonic() < end:
        progress = False
        # 1. remove list elements, big chunks first
        for path in list(paths(best, frozen)):
            try:
                n = len(get(best, path))
            except (KeyError, IndexError, TypeError):
                continue
            if n == 0:
                continue
            size = n
            while size >= 1 and env.real_monotonic() < end:
                i = 0
                while i < len(get(best, path)) and env.real_monotonic() < end:
                    c = copy.deepcopy(best)
                    del get(c, path)[i:i + size]
                    r = bad(c)
                    if r:
                        best, best_r, progress = c, r, True
                    else:
                        i += size
                size //= 2
            # paths below may have moved; continue with stale ones guarded by try
        # 2. remove dictionary entries
        for path, k in list(dict_keys(best, frozen)):
            if env.real_monotonic() >= end:
                break
            try:
                d = get(best, path)
                if not isinstance(d, dict) or k not in d:
                    continue
            except (KeyError, IndexError, TypeError):
                continue
            v = d[k]
            cands = []
            if isinstance(v, bool):
                pass
            elif isinstance(v, (int, float)) and v not in (0, 1):
                cands = [0, 1, round(v, 1)] if isinstance(v, float) else [0, 1]
            c = copy.deepcopy(best)
            del get(c, path)[k]
            r = bad(c)
            if r:
                best, best_r, progress = c, r, True
                continue
            for x in cands:
                if x == v:
                    continue
                c = copy.deepcopy(best)
                get(c, path)[k] = x
                r = bad(c)
                if r:
                    best, best_r, progress = c, r, True
                    break
    return best, best_r, tries


def write_replay(fam, sc, res, seed, i, tries, original):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    c = dict(sc, _keep_hist=True)
    full = run_one(fam, c)
    # keeping the history must not change the execution
    path = os.path.join(d, f"{fam.prop}-{hashlib.sha1(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        json.dump({
            "property": fam.prop, "verif_seed": seed, "run": i, "scenario": sc, "original_scenario": original,
            "violations": res["viols"], "trace_sha1": res["trace"], "minimisation_runs": tries,
            "schedule_and_faults": full.get("hist"), "faults": res["faults"],
        }, f, indent=1)
    return path


def replay(path, fams):
    rec = json.load(open(path))
    fam = fams[rec["property"]]
    r = run_one(fam, rec["scenario"])
    if r["error"]:
        print("replay: harness error:", r["error"])
        return 2
    for v in r["viols"]:
        print(f"  t={v['t']} {v['rule']}: {v['detail']}")
    same = r["trace"] == rec["trace_sha1"] and [v["key"] for v in r["viols"]] == [v["key"] for v in rec["violations"]]
    print(f"replay: {'reproduced exactly' if same else 'differs'} (trace {r['trace'][:12]}, recorded {rec['trace_sha1'][:12]})")
    if r["viols"]:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0


# -- the search -------------------------------------------------------------------------------------
def worker(fam, seed, tier, idx, n, total, wfd, deadline):
    f = os.fdopen(wfd, "w", buffering=1)
    for i in range(idx, total, n):
        if env.real_monotonic() > deadline:
            f.write(json.dumps({"i": i, "late": True}) + "\n")
            break
        try:
            sc = scenario_of(fam, seed, i, tier)
            r = run_one(fam, sc)
        except BaseException:
            r = normal({"error": "worker: " + traceback.format_exc()[-2000:]})
        r["i"] = i
        f.write(json.dumps(r, default=str) + "\n")
    f.write(json.dumps({"done": idx}) + "\n")
    f.close()
    os._exit(0)


def search(fam, seed, tier, total, wall_cap, jobs, on_result):
    deadline = env.real_monotonic() + wall_cap
    pids, fds = [], {}
    for k in range(jobs):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            try:
                worker(fam, seed, tier, k, jobs, total, wfd, deadline)
            finally:
                os._exit(7)
        os.close(wfd)
        pids.append(pid)
        fds[r] = b""
    stop = False
    done = 0
    while fds and not stop:
        rl, _, _ = select.select(list(fds), [], [], 5.0)
        for r in rl:
            d = os.read(r, 1 << 20)
            if not d:
                os.close(r)
                del fds[r]
                continue
            lines = (fds[r] + d).split(b"\n")
            fds[r] = lines.pop()
            for line in lines:
                m = json.loads(line)
                if "done" in m:
                    done += 1
                elif on_result(m):
                    stop = True
    for pid in pids:
        if stop:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    for r in fds:
        os.close(r)
    return done == jobs or stop


def check(fam, tier, seed, total=None, jobs=None, quiet=False):
    t0 = env.real_monotonic()
    jobs = jobs or min(8, os.cpu_count() or 1)
    total = total or fam.runs[tier]
    wall_cap = float(os.environ.get("VERIF_WALL", "420" if tier == "quick" else "7200"))
    known = load_known(fam.prop)
    st = {"runs": 0, "skip": 0, "late": 0, "ops": 0, "sim_t": 0.0, "steps": 0, "events": 0}
    faults, probes, ils, traces, skips = {}, {}, set(), set(), {}
    found, errors, known_hit, samples = [], [], {}, []
    xrun = fam.cross_run() if hasattr(fam, "cross_run") else None

    def on_result(r):
        if r.get("late"):
            st["late"] += 1
            return False
        st["runs"] += 1
        if r["error"]:
            errors.append((r["i"], r["error"]))
            return len(errors) > 5
        if r["skip"]:
            st["skip"] += 1
            skips[r["skip"]] = skips.get(r["skip"], 0) + 1
            return False
        for k in ("ops", "sim_t", "steps", "events"):
            st[k] += r[k]
        for src, dst in ((r["faults"], faults), (r["probes"], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        ils.add(r["il"])
        traces.add(r["trace"])
        fresh = []
        for v in r["viols"]:
            if v["key"] in known:
                known_hit[v["key"]] = v
            else:
                fresh.append(v)
        if fresh:
            found.append((r["i"], fresh))
            return True
        if xrun is not None:
            v = xrun.add(r)
            if v:
                found.append((r["i"], [v]))
                return True
        return False

    complete = search(fam, seed, tier, total, wall_cap, jobs, on_result)
    search_s = env.real_monotonic() - t0
    code = 0
    for key, text in known.items():
        if key in known_hit:
            print(f"KNOWN-FINDING: property={fam.prop} {text}")
    if found:
        i, vs = found[0]
        if vs[0].get("pair"):
            sc = fam.pair_scenario(*[scenario_of(fam, seed, j, tier) for j in vs[0]["pair"]])
            sc.update(seed=f"{fam.prop}|{seed}|{vs[0]['pair']}", prop=fam.prop)
        else:
            sc = scenario_of(fam, seed, i, tier)
        keys = {v["key"] for v in vs}
        r = run_one(fam, sc)
        best, best_r, tries = minimise(fam, sc, keys, budget=float(os.environ.get("VERIF_MINIMISE", "40")), known=known)
        if best_r is None:
            best_r = r
        path = write_replay(fam, best, best_r, seed, i, tries, sc)
        print(f"{fam.prop}: seed {seed} run {i} violates the property (minimised in {tries} runs):")
        for v in (best_r["viols"] or vs)[:5]:
            print(f"  t={v['t']} {v['rule']}: {v['detail']}")
        print(f"VIOLATION property={fam.prop} replay={path}")
        code = 1
    elif errors:
        for i, e in errors[:3]:
            print(f"{fam.prop}: harness error in run {i}: {e}", file=sys.stderr)
        code = 2
    elif not complete or st["late"]:
        print(f"{fam.prop}: stopped by the wall-clock cap after {st['runs']} of {total} runs", file=sys.stderr)
        if st["runs"] - st["skip"] < total // 10:
            code = 2
    if code == 0 and st["runs"] and st["skip"] > st["runs"] * 0.5:
        print(f"{fam.prop}: too many runs could not be set up: {skips}", file=sys.stderr)
        code = 2
    wall = env.real_monotonic() - t0
    decided = st["runs"] - st["skip"]
    for i in range(3):
        sc = scenario_of(fam, seed, i, tier)
        samples.append({"run": i, "scenario": json.loads(json.dumps(sc, default=str))})
        if len(json.dumps(samples[-1])) > 4000:
            samples[-1] = {"run": i, "scenario_head": json.dumps(sc, default=str)[:1500]}
    ev = {
        "property": fam.prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": decided,
            "distinct_nontrivial": len(ils),
            "rule": "one evaluation = one simulated run generated from (property, VERIF_SEED, run number) and not skipped; "
                    "two runs are distinct when the ordered sequence of events (actor, event, subject: calls, returns, "
                    "frames received, connection events, callbacks; times left out) differs. " + fam.rule,
            "samples": samples,
            "runs_planned": total, "runs_skipped": st["skip"], "runs_cut_by_wall_cap": max(0, total - st["runs"]) if not found else 0,
            "seeds_per_hour": round(st["runs"] / max(search_s, 1e-6) * 3600),
            "simulated_seconds": round(st["sim_t"], 1),
            "simulated_to_wall_ratio": round(st["sim_t"] / max(search_s, 1e-6), 1),
            "loop_iterations": st["steps"], "operations": st["ops"], "history_events": st["events"],
            "distinct_traces_with_times": len(traces),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "known_findings_seen": sorted(known_hit),
            "real_components": fam.real, "stub_components": fam.stub,
            "jobs": jobs,
        },
        "assumptions": fam.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{fam.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False)
    if not quiet:
        print(f"{fam.prop}: {decided} runs ({st['skip']} skipped), {len(ils)} distinct interleavings, "
              f"{st['sim_t']:.0f} simulated s, {wall:.1f} s wall, exit {code}")
    return code
