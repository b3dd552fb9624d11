"""Helpers shared by the scenario families: outcomes, violations, running one scenario."""
import asyncio
import gc
import hashlib
import json
import logging
import os
import weakref

from . import env, net


class Skip(Exception):
    """The scenario could not be set up; the run decides nothing."""


class W:
    def __init__(self, sc, sim, loop):
        self.sc, self.sim, self.loop = sc, sim, loop
        self.viols = []
        self.ops = 0
        self.notes = {}

    def viol(self, rule, detail, key=None):
        if len(self.viols) < 20:
            self.viols.append({"rule": rule, "detail": str(detail)[:1500], "key": key or rule, "t": round(self.sim.t, 4)})

    def log(self, actor, kind, *data):
        self.sim.log(actor, kind, *data)

    def probe(self, name, n=1):
        self.sim.count("probe", name, n)

    # -- operations ------------------------------------------------------------------------
    async def outcome(self, coro, name="op", log=True):
        """Await coro; classify how it ended."""
        import pyown.exceptions as ex

        self.ops += 1
        start = self.sim.t
        if log:
            self.log("app", "call", name)
        try:
            v = await coro
            o = ("ok", v)
        except asyncio.CancelledError:
            o = ("cancelled", None)
        except TimeoutError as e:
            o = ("timeout", e)
        except ex.OWNException as e:
            o = (type(e).__name__, e)
        except Exception as e:  # noqa
            o = ("other", e)
        if log:
            self.log("app", "ret", name, o[0], _brief(o[1]))
        return Out(o[0], o[1], start, self.sim.t)

    def spawn(self, coro, name="op", cancel_at=None):
        """Run outcome(coro) as a task, optionally cancelled at an absolute simulated time or, given [j, k],
        k loop iterations after the j-th arrival of data."""
        def cancel():
            x = ref()       # what the operation held is released when it ends
            if x is not None and not x.done():
                if isinstance(cancel_at, list):
                    self.sim.count("fault", "operation cancelled a few loop steps after data arrived")
                x.cancel()

        async def armed():
            self.sim.on_recv(cancel_at[0], cancel_at[-1], cancel)
            return await self.outcome(coro, name)

        if isinstance(cancel_at, list):
            t = self.loop.create_task(armed())
            ref = weakref.ref(t)
            return t
        t = self.loop.create_task(self.outcome(coro, name))
        ref = weakref.ref(t)
        if cancel_at is not None:
            self.sim.count("fault", "operation cancelled by the application")
            self.loop.call_at(max(self.sim.now, self.sim.t0 + cancel_at), cancel)
        return t

    def when(self, o):
        """When the operation o of a scenario is to be cancelled."""
        x = o.get("cancel")
        return x if x is None or isinstance(x, list) else self.sim.t + x

    async def until(self, t):
        """Sleep until simulated time t (relative to the start of the run)."""
        d = self.sim.t0 + t - self.sim.now
        if d > 0:
            await asyncio.sleep(d)

    async def finish(self, tasks, limit):
        """Wait for tasks at most `limit` more simulated seconds; returns those not finished."""
        tasks = [t for t in tasks if not t.done()]
        if not tasks:
            return set()
        done, pending = await asyncio.wait(tasks, timeout=limit)
        return pending


class Out:
    __slots__ = ("kind", "value", "start", "end")

    def __init__(self, kind, value, start, end):
        self.kind, self.value, self.start, self.end = kind, value, start, end

    @property
    def dur(self):
        return self.end - self.start

    @property
    def ok(self):
        return self.kind == "ok"

    @property
    def clean_error(self):
        """An error the library documents: timeout or one of its own exceptions."""
        return self.kind not in ("ok", "other")

    def __repr__(self):
        return f"{self.kind}({_brief(self.value)}) [{self.start:.3f}..{self.end:.3f}]"


def _brief(v):
    try:
        s = repr(v) if not isinstance(v, str) else v
    except Exception:
        s = type(v).__name__
    if " at 0x" in s or " object at" in s:
        s = type(v).__name__
    return s[:200]


def gaps(x):
    """All the planned silences of a scenario."""
    if isinstance(x, dict):
        return sum(v if k == "gap" and isinstance(v, (int, float)) else sum(d for d in v if isinstance(d, (int, float))) if k == "delays" and isinstance(v, list)
                   else sum(d[1] for d in v) if k == "stalls" else 4 * v[1] if k == "do" and v and v[0] == "sleep" else gaps(v) for k, v in x.items())
    return sum(map(gaps, x)) if isinstance(x, list) else 0


def execute(sc, main, horizon=3600.0, **simkw):
    """Run coroutine function main(w) in a fresh world; returns the result dict."""
    gc.disable()
    sim, loop = net.new_world(sc.get("seed", 0), lag=sc.get("lag", 0), **simkw)
    w = W(sc, sim, loop)
    if sc.get("weak"):
        sim.drbg.weak = True
        sim.count("fault", "little entropy")
    logging.getLogger().setLevel(logging.DEBUG if sc.get("debug_log") else logging.WARNING)
    res = {"skip": None, "error": None}
    for b in sc.get("blocks", ()):  # [time, seconds]: the application blocks the loop
        sim.after(b[0], sim.block, b[1])
    def collect():
        sim.count("fault", "garbage collection")
        gc.collect()

    for t in sc.get("gc", ()):
        sim.after(t + sc.get("idle_open", 0), collect)
    for t, d in sc.get("jumps", ()):
        sim.after(t, sim.set_clock, d)
        sim.after(t + sc.get("idle_open", 0) + 0.05, sim.set_clock, d)
    task = loop.create_task(main(w))

    def give_up():
        if not task.done():
            w.notes["horizon"] = True
            loop.stop()

    horizon += sc.get("idle_open", 0) * 4 + gaps(sc)
    loop.call_later(horizon, give_up)
    asyncio.set_event_loop(loop)
    try:
        task.add_done_callback(lambda _: loop.stop())
        try:
            loop.run_forever()
        except net.SimLivelock as e:
            w.viol("livelock", f"the event loop spins without time passing: {e}")
        if task.done():
            if task.cancelled():
                res["error"] = "harness main was cancelled"
            elif task.exception() is not None:
                e = task.exception()
                if isinstance(e, Skip):
                    res["skip"] = str(e) or "skip"
                else:
                    import traceback

                    tb = traceback.extract_tb(e.__traceback__)
                    if tb and os.path.realpath(tb[-1].filename).startswith(os.path.realpath(env.REPO) + os.sep):
                        # raised by the library where the scenario knows of no reason
                        w.viol("unexpected", f"{type(e).__name__}: {e} at {tb[-1].name}, called from {tb[0].name}")
                    else:
                        res["error"] = "".join(traceback.format_exception(e))[-3000:]
        elif not w.viols:
            # every wait of a scenario is bounded except for calls into the library
            w.viol("stuck", f"a call into the library never returned ({'nothing is scheduled any more' if sim.deadlock else f'{horizon} simulated s passed'})")
    finally:
        env.CUR.sim = None
    blob = json.dumps(sim.hist, default=str, separators=(",", ":"))
    res["trace"] = hashlib.sha1(blob.encode()).hexdigest()
    il = json.dumps([h[1:4] for h in sim.hist], default=str, separators=(",", ":"))
    res["il"] = hashlib.sha1(il.encode()).hexdigest()[:16]
    res["viols"] = w.viols
    res["sim_t"] = sim.t
    res["steps"] = sim.steps
    res["faults"] = sim.faults
    res["probes"] = sim.probes
    res["ops"] = w.ops
    res["events"] = len(sim.hist)
    res["notes"] = w.notes
    if sc.get("_keep_hist"):
        res["hist"] = json.loads(blob)
    return res


def merge_results(parts):
    """Combine results of several worlds of one run (process restarts, differential runs)."""
    out = {"skip": None, "error": None, "viols": [], "sim_t": 0.0, "steps": 0, "faults": {}, "probes": {}, "ops": 0,
           "events": 0, "notes": {}}
    h, il = hashlib.sha1(), hashlib.sha1()
    for p in parts:
        out["skip"] = out["skip"] or p["skip"]
        out["error"] = out["error"] or p["error"]
        out["viols"] += p["viols"]
        for k in ("sim_t", "steps", "ops", "events"):
            out[k] += p[k]
        for k in ("faults", "probes"):
            for n, c in p[k].items():
                out[k][n] = out[k].get(n, 0) + c
        h.update(p["trace"].encode())
        il.update(p["il"].encode())
        if "hist" in p:
            out.setdefault("hist", []).extend(p["hist"])
    out["trace"] = h.hexdigest()
    out["il"] = il.hexdigest()[:16]
    return out
