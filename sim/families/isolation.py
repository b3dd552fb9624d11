"""P19: clients in one process behave as if each were alone (differential simulation)."""
import asyncio
import contextvars

from .. import env
from .common import *  # noqa
from .common import Family
from .events import CB_ALL, flat, gen_event, gen_noise, register

DIALS = contextvars.ContextVar("dials")
LIGHTS = ["11", "12", "25", "0110", "37"]


class P19(Family):
    prop = "P19"
    runs = {"quick": 6250, "thorough": 80000}
    frozen = ("a", "f", "k", "w", "delays")
    rule = ("Cases: 2-5 clients of every session kind to the same or different gateways, each with its own timetable of opening, closing, commands, "
            "queries, reads, event loops and its own faults (refused, unreachable, silent, dropped, reset, stalled, malformed bytes, cancelled calls). Every "
            "client is simulated alone and then all together; what each client, its callbacks and its gateway see must be the same.")

    def gen(self, rng, i, tier):
        n = rng.choice((2, 2, 2, 3, 5))
        sc = {"clients": [], "cbs": rng.sample(CB_ALL, 6) + ["light.status"]}
        sc["cbs"] = sorted(set(sc["cbs"]))
        shared = rng.random() < 0.3
        for k in range(n):
            kind = rng.choice(("cmd", "cmd", "event", "event", "old"))
            auth = rng.choice(("none", "none", "open"))
            cl = {"kind": kind, "gw": 0 if shared else k, "start": rng.choice((0, 0, 0.01, 1.0, 3.0)), "plans": [], "net": {}, "ops": [], "wrong": rng.random() < 0.08}
            if not shared:
                cl["net"] = gen_net(rng)
                # no draws shared by all connections
            if rng.random() < 0.35:
                cl["net"]["high_water"] = rng.choice((0, 0, 16, 40))
            rounds = rng.choice((1, 1, 2, 3))
            for r in range(rounds):
                p = {"auth": auth, "password": "12345", "nonce": str(rng.randrange(1, 10 ** 9))}
                if rng.random() < 0.15:
                    p["faults"] = {rng.choice(("greet", "session", "auth")): rng.choice(({"act": "silence"}, {"act": "eof"}, {"act": "rst"}, {"act": "frame", "data": own.NACK},
                                                                                        {"act": "late", "delay": 2.0}, {"act": "raw", "data": "40404023"}))}
                if rng.random() < 0.12:
                    p["connect"] = {"fail": rng.choice(("refused", "unreachable", "dns", "timeout")), "delay": rng.choice((0, 0.01, 1.0, 20.0))}
                stalls = []
                if rng.random() < 0.3:
                    stalls = [[rng.choice((0.1, 1.0, 4.0)), rng.choice((1.0, 6.0, 20.0))]]
                p["net"] = {"stalls": stalls}
                if rng.random() < 0.25:
                    p["drop"] = [rng.choice(("eof", "rst")), rng.choice((0.3, 2.0, 5.0, 9.0))]
                if rng.random() < 0.1:
                    p["garbage"] = [rng.choice((1.0, 3.0)), "404023"]
                fr = []
                for _ in range(rng.choice((0, 1, 3, 8))):
                    it = gen_event(rng, rng.choice(sc["cbs"])) if rng.random() < 0.8 else {"f": gen_noise(rng)}
                    it["gap"] = rng.choice((0, 0.01, 0.5, 2.0))
                    fr.append(it)
                p["frames"] = fr
                cl["plans"].append(p)
            ops = []
            for r in range(rounds):
                ops.append({"m": "start"})
                for _ in range(rng.choice((1, 2, 4))):
                    m = rng.choice(("on", "status", "read", "send", "burst", "wait", "wait")) if kind != "event" else rng.choice(("loop", "loop", "read", "on", "wait"))
                    o = {"m": m, "gap": rng.choice((0, 0.05, 0.7, 2.0)), "where": rng.choice(LIGHTS)}
                    if m == "read":
                        o["timeout"] = rng.choice((0.5, 2))
                    if m == "loop":
                        o["for"] = rng.choice((0.5, 4.0, 12.0))
                    if rng.random() < 0.1 and m != "loop":
                        o["cancel"] = rng.choice((0, 0.02, 0.5))
                    ops.append(o)
                if rng.random() < 0.7:
                    ops.append({"m": "close", "gap": rng.choice((0, 1.0))})
            cl["ops"] = ops
            cl["ack"] = [rng.choice(("ack", "ack", "ack", "nack", "none", "drop")) if rng.random() < 0.3 else "ack" for _ in range(8)]
            sc["clients"].append(cl)
        return sc

    def run(self, sc):
        parts, alone = [], []
        n = len(sc["clients"])
        for k in range(n):
            res, hist = self.world(sc, [k])
            parts.append(res)
            alone.append(hist.get(k))
        res, together = self.world(sc, list(range(n)))
        parts.append(res)
        out = merge_results(parts)
        if out["skip"] or out["error"]:
            return out
        for k in range(n):
            d = first_diff(alone[k], together[k])
            if d:
                cl = sc["clients"][k]
                out["viols"].append({"rule": "isolation", "key": "isolation", "t": res["sim_t"],
                                     "detail": f"client {k} ({cl['kind']}): {d}"[:1500]})
                break
        else:
            out["probes"]["histories compared"] = n
        return out

    def world(self, sc, which):
        """Simulate the clients of `which` in one process; returns (result, {client: history})."""
        hist = {k: [] for k in which}

        async def main(w):
            owner = {}

            def make(kind):
                async def cb(item, *args):
                    if env.CUR.sim is not w.sim:
                        return      # registered for a world that is over
                    k = owner.get(id(item.client))
                    w.log("cb", kind, str(item.where), str(k))
                    if k is None:
                        w.viol("stray", f"a callback got an item of no client: {item!r}")
                    else:
                        hist[k].append((w.sim.t, "cb", kind, str(item.where), [flat(a) for a in args]))
                return cb

            for kind in sc["cbs"]:
                register(kind, make(kind))
            gws = {}
            for k in which:
                cl = sc["clients"][k]
                g = cl["gw"]
                # one gateway object per client: at a shared address they are told apart by the order of nothing but the client
                if g not in gws:
                    gws[g] = Multi(w, f"10.5.0.{g + 1}")
                gws[g].add(k, cl, sc["seed"])
            tasks = [w.loop.create_task(self.drive(w, sc["clients"][k], k, gws[sc["clients"][k]["gw"]], hist[k], owner)) for k in which]
            left = await w.finish(tasks, 900)
            if left:
                w.viol("stuck", "a client did not finish its timetable in 900 s")
            for t in tasks:
                if t.done() and t.exception():
                    raise t.exception()
            await asyncio.sleep(30)
            for k in which:
                for s in gws[sc["clients"][k]["gw"]].sessions_of(k):
                    for t, f in s.frames:
                        hist[k].append((t, "gateway<-", f))
                    hist[k].append((s.closed_at if s.closed_at is not None else -1, "closed"))

        sc2 = {"seed": sc["seed"]}
        if sc.get("_keep_hist"):
            sc2["_keep_hist"] = True
        return execute(sc2, main, fifo=True), hist

    async def drive(self, w, cl, k, gw, h, owner):
        from pyown.client import Client, SessionType
        from pyown.items import Light
        from pyown.messages import parse_message

        await asyncio.sleep(cl.get("start", 0))
        c = Client(gw.host, gw.port, "54321" if cl.get("wrong") else "12345", getattr(SessionType, KINDS[cl["kind"]][0]))
        owner[id(c)] = k
        for j, o in enumerate(cl["ops"]):
            await asyncio.sleep(o.get("gap", 0))
            m = o["m"]
            name = f"client {k} {m}"
            if m == "start":
                coro = gw.start(k, c)
            elif m == "close":
                coro = c.close()
            elif m == "on":
                coro = Light(c, o["where"]).turn_on()
            elif m == "status":
                coro = collect(Light(c, o["where"]).get_status())
            elif m == "read":
                coro = c.read_message(timeout=o.get("timeout", 2))
            elif m == "send":
                coro = c.send_message(parse_message(f"*1*1*{o['where']}##"))
            elif m == "burst":
                async def burst():
                    for x in range(4):
                        await c.send_message(parse_message(f"*1*{x}*{o['where']}##"))
                coro = burst()
            elif m == "loop":
                coro = run_for(c.loop(), o["for"])
            else:
                coro = asyncio.sleep(1.0)
            t = w.spawn(coro, name, w.sim.t + o["cancel"] if o.get("cancel") is not None else None)
            out = await t
            v = out.value
            text = [str(x) for x in v] if isinstance(v, list) else str(v) if not isinstance(v, BaseException) else ""
            h.append((out.start, "call", j, m))
            h.append((out.end, "ret", j, out.kind, text))
        await w.outcome(c.close(), f"client {k} close")
        # keep the object, so that its identity is not reused
        owner.setdefault("_keep", []).append(c)


async def collect(it):
    return [(str(a), b) async for a, b in it]


async def run_for(coro, seconds):
    t = asyncio.ensure_future(coro)
    try:
        done, _ = await asyncio.wait([t], timeout=seconds)
    finally:
        if not t.done():
            t.cancel()
    if done:
        return t.result()
    try:
        await t
    except asyncio.CancelledError:
        return "stopped"


class Multi:
    """One gateway address serving several clients; connections are told apart by the client that dials."""

    def __init__(self, w, host, port=20000):
        self.w, self.host, self.port = w, host, port
        self.per = {}
        self.calling = None
        w.sim.listeners[(host, port)] = self

    def add(self, k, cl, seed):
        g = SimGateway(self.w.sim, host=self.host, port=self.port, plans=cl["plans"] or [{}], net=cl.get("net", {}), seed=f"{seed}-{k}")
        self.w.sim.listeners[(self.host, self.port)] = self
        g.on_session = lambda s: self.session(k, cl, g, s)
        self.per[k] = g

    def sessions_of(self, k):
        return self.per[k].sessions

    async def start(self, k, c):
        # remember who dials, also for tasks that start() may create
        DIALS.set(k)
        await c.start()

    def connect_plan(self):
        k = DIALS.get()
        p = self.per[k].connect_plan()
        p["_plan"] = dict(p["_plan"], _who=k)
        return p

    def accept(self, plan):
        return self.per[plan["_who"]].accept(plan)

    def session(self, k, cl, g, s):
        sim = self.w.sim
        state = {"n": 0}
        plan = s.plan

        def on_frame(s_, f):
            a = cl["ack"][state["n"] % len(cl["ack"])] if cl.get("ack") else "ack"
            state["n"] += 1
            if a == "none":
                sim.count("fault", "command left unanswered")
                return
            if a == "drop":
                s_.drop("eof")
                return
            if a == "nack":
                s_.send_later(0.02, own.NACK)
                return
            if f.startswith("*#1*") and f.count("*") == 2:
                where = f[4:-2]
                s_.send_later(0.02, own.normal(1, "1", where))
            s_.send_later(0.05, own.ACK)

        s.on_frame = on_frame
        grant = s.grant

        def granted():
            grant()
            t = 0.2
            for it in plan.get("frames", ()):
                t += it.get("gap", 0)
                sim.after(t, lambda it=it: None if s.dead else s.send_text(it["f"], None, it.get("delays")))
            if plan.get("garbage"):
                sim.after(plan["garbage"][0], lambda: None if s.dead else s.conn.send(bytes.fromhex(plan["garbage"][1])))
            if plan.get("drop"):
                sim.after(plan["drop"][1], s.drop, plan["drop"][0])

        s.grant = granted


def first_diff(a, b):
    if len(a) != len(b):
        pass
    a, b = sorted_hist(a), sorted_hist(b)
    for x, y in zip(a, b):
        if x[1:] != y[1:] or abs(x[0] - y[0]) > 0.03:
            return f"alone {brief(x)}, among the others {brief(y)}"
    if len(a) != len(b):
        x = (a + b)[0] if not (a and b) else (a[len(b)] if len(a) > len(b) else b[len(a)])
        return f"{len(a)} observations alone, {len(b)} among the others; first extra: {brief(x)}"
    return None


def sorted_hist(h):
    # what the gateway saw, then what the application saw: each in its own order
    return [x for x in h if x[1] in ("gateway<-", "closed")] + [x for x in h if x[1] == "cb"] + [x for x in h if x[1] in ("call", "ret")]


def brief(x):
    return f"[{x[0]:.3f}] " + " ".join(str(y) for y in x[1:])
