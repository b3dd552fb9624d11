"""P23: a session uses bounded resources, a closed client leaves nothing behind."""
import asyncio
import gc
import sys
import types
import weakref

from .. import own
from .common import *  # noqa
from .common import Family
from .events import register
from .exchange import cmd_ops, gen_answer_cmd, query_ops
from .session import P06, slow_steps

MANY = 1500         # frames of a long stream
FEW = 600           # of them may be kept (a cache of some size is nobody's loss)
SETTLE = 75.0       # seconds within which everything the library started has to be over

KINDS_CB = ["light.status", "light.luminosity", "auto.status", "gw.19", "en.113", "en.511"]


def event_frame(k, n):
    return {"light.status": own.normal(1, n % 2, 11 + n % 3), "light.luminosity": own.dimres(1, "12", 1, 100 + n % 101, n % 256),
            "auto.status": own.normal(2, n % 3, 21), "gw.19": own.dimres(13, "", 19, n % 400, n % 24, n % 60, n % 59),
            "en.113": own.dimres(18, "51", 113, n), "en.511": own.dimres(18, "52", f"511#{1 + n % 12}#{1 + n % 28}", 1 + n % 24, n),
            "other": own.normal(6, 9, 4000 + n % 9), "ack": own.ACK, "odd": own.dimres(18, "51", 9999, n), "short": f"*{n}*{n}##"}[k]


class P23(Family):
    prop = "P23"
    runs = {"quick": 6000, "thorough": 80000}
    rule = ("Cases: one client opened 1-6 times (plainly, against failing gateways, cancelled), used for commands, queries, reads, sends or an event "
            "loop with quick, slow, failing and cancelled callbacks, now and then for hundreds of frames, and ended in every way, with calls in "
            "progress; afterwards sockets, tasks, timers and objects of the process are counted.")

    def gen(self, rng, i, tier):
        kind = rng.choice(("cmd", "cmd", "old", "event", "event"))
        sc = {"kind": kind, "net": gen_net(rng), "lives": []}
        gen_common(rng, sc)
        sc.pop("idle_open", None)
        lives = rng.choice((1, 1, 2, 3, 4, 6))
        bulk = rng.randrange(lives) if rng.random() < 0.15 else None
        if bulk is not None:
            for k in ("recv_cap", "short_cap", "seg"):
                sc["net"].pop(k, None)
        n = 0
        for k in range(lives):
            if rng.random() < 0.3:
                lf = {"plan": P06().gen_plan(rng, "12345")}
            else:
                lf = {"plan": dict(gen_handshake(rng), password="12345", delays=slow_steps(rng))}
            if rng.random() < 0.15:
                lf["cancel"] = gen_cancel(rng, (0, 0.005, 0.015, 0.05, 0.5, 3.0))
            for what in ("closed", "started"):
                if rng.random() < 0.1:
                    lf[what] = {"cancel": gen_cancel(rng, (0, 0.005, 0.015, 0.05, 0.5, 3.0))}
            if k == bulk:
                lf["bulk"] = rng.choice(("read", "exchange")) if kind != "event" else rng.choice(KINDS_CB + ["other", "odd", "ack", "short"])
                lf["plan"] = {"auth": "none"}
                for x in ("cancel", "closed", "started"):
                    lf.pop(x, None)
            lf["frames"] = [[round(rng.uniform(0, 3), 2), rng.choice(KINDS_CB + ["other", "ack", "odd", "short"])] for _ in range(rng.choice((0, 1, 5, 20)))]
            if kind != "event":
                lf["ops"] = []
                for _ in range(rng.choice((0, 1, 2, 4, 9))):
                    o = {"op": rng.choice(sorted(cmd_ops()) + sorted(query_ops()) + ["read"] * 6 + ["send"] * 3), "n": n, "at": rng.choice((0, 0, 0.01, 0.5, 2.0)),
                         "timeout": rng.choice((0, 0.5, 5, None))}
                    if rng.random() < 0.3:
                        o["cancel"] = gen_cancel(rng, (0, 0.001, 0.02, 0.1, 0.5, 2.0))
                    if rng.random() < 0.1:
                        o["stop"] = True
                    lf["ops"].append(o)
                    n += 1
                lf["answers"] = [gen_answer_cmd(rng) if rng.random() < 0.7 else [["*#1*3000*8*11##", 0.01], [own.ACK, 0.1]] for _ in range(4)]
            else:
                lf["loop"] = "plain" if k == bulk else rng.choice(("plain", "plain", "plain", "cancel", "twice"))
            if rng.random() < 0.2:
                lf["plan"]["net"] = {"high_water": rng.choice((0, 1, 40))}
                lf["stall"] = rng.choice((0.5, 3.0, 20.0))
            lf["for"] = rng.choice((0, 0.01, 0.3, 1.0, 3.0, 8.0))
            lf["end"] = rng.choice(("close", "close", "close2", "eof", "rst", "vanish", "garbage", "start", "start"))
            sc["lives"].append(lf)
        sc["cbs"] = [{"k": k, "do": rng.choice((["log"], ["log"], ["sleep", 0.5], ["sleep", 5.0], ["raise"], ["cancel"], ["raise_after", 1.0]))}
                     for k in KINDS_CB for _ in range(rng.choice((0, 0, 1, 1, 1, 1, 2, 3)))]
        return sc

    # -- counting ------------------------------------------------------------------------------
    @staticmethod
    def alive(cls):
        return sum(isinstance(o, cls) for o in gc.get_objects())

    @staticmethod
    def held(c):
        """Number and size of the objects the client and the modules of the library hold."""
        mods = [m for n, m in sys.modules.items() if m is not None and n.split(".")[0] == "pyown"]
        globs = {id(m.__dict__) for m in mods}
        seen, todo, size = set(), [c] + [m.__dict__ for m in mods], 0
        skip = (types.ModuleType, types.CodeType, types.FrameType, types.CoroutineType, types.AsyncGeneratorType, asyncio.AbstractEventLoop,
                asyncio.BaseTransport, asyncio.Task, asyncio.Handle, weakref.ReferenceType)
        while todo:
            o = todo.pop()
            if id(o) in seen or isinstance(o, skip):
                continue
            cls = o if isinstance(o, type) else type(o)
            mod = getattr(cls, "__module__", None) or ""
            if not isinstance(mod, str) or mod.split(".")[0] == "sim" or isinstance(o, type) and mod.split(".")[0] != "pyown":
                continue
            if isinstance(o, dict) and "__builtins__" in o and id(o) not in globs:
                continue
            seen.add(id(o))
            if isinstance(o, (str, bytes, bytearray)):
                size += len(o)          # containers keep room for what they once held
            todo.extend(gc.get_referents(o))
        return len(seen), size

    def measure(self, w, what, c, before):
        from pyown.messages import BaseMessage

        gc.collect()
        n, size = (a - b for a, b in zip(self.held(c), before))
        if n > FEW:
            w.viol("objects-kept", f"the client and the library hold {n} objects more after {what}")
        elif size > 20 * FEW:
            w.viol("bytes-kept", f"the client and the library hold {size} bytes more after {what}")
        n = self.alive(BaseMessage)
        if n > FEW:
            w.viol("messages-kept", f"{n} messages are still alive after {what}")
        n = sum(1 for o in gc.get_objects() if isinstance(o, asyncio.Task) and o.done())
        if n > FEW:
            w.viol("tasks-kept", f"{n} finished tasks are still alive after {what}")
        n = len(asyncio.all_tasks())
        if n > FEW:
            w.viol("tasks-running", f"{n} tasks are running after {what}")
        w.probe("long streams counted")

    # -- one client ----------------------------------------------------------------------------
    def callback(self, w, do):
        async def cb(item, *args):
            w.ops += 1
            if do[0] == "sleep":
                await asyncio.sleep(do[1])
            elif do[0] == "raise":
                raise RuntimeError("callback")
            elif do[0] == "raise_after":
                await asyncio.sleep(do[1])
                raise RuntimeError("callback")
            elif do[0] == "cancel":
                asyncio.current_task().cancel()
                await asyncio.sleep(0)
        return cb

    async def operation(self, c, o):
        name = o["op"]
        if name == "read":
            await c.read_message(timeout=o.get("timeout", 5))
        elif name == "send":
            await c.send_message(build_message(own.normal(1, 1, 2000 + o["n"])))
        elif name in cmd_ops():
            await cmd_ops()[name](c, o["n"] % 120)
        else:
            it = query_ops()[name][0](c, o["n"] % 120)
            if hasattr(it, "__aiter__"):
                async for _ in it:
                    if o.get("stop"):
                        break
            else:
                await it

    async def end(self, tasks, limit):
        """The calls in progress end; the application abandons those that wait without a limit."""
        for _ in range(2):
            live = [t for t in tasks if not t.done()]
            if live:
                await asyncio.wait(live, timeout=limit)
            for t in tasks:
                if not t.done():
                    t.cancel()

    async def life(self, w, sc, gw, c, lf, k, tasks):
        gw.attempts = k
        kind = sc["kind"]
        t = w.spawn(c.start(), f"start {k}", w.when(lf))
        over = asyncio.Event()
        ended = w.loop.create_task(over.wait())
        for what in ("closed", "started"):
            if lf.get(what):
                async def meddle(what=what):
                    # a call that never ends, cancelled at the chosen step
                    wait = w.spawn(asyncio.Event().wait(), "wait", w.when(lf[what]))
                    await asyncio.wait([wait, ended], return_when=asyncio.FIRST_COMPLETED)
                    wait.cancel()
                    if over.is_set():
                        return
                    if what == "closed":
                        w.sim.count("fault", "closed while it is being opened")
                        await w.outcome(c.close(), "close")
                    else:
                        w.sim.count("fault", "opened while it is being opened")
                        await w.outcome(c.start(), "another start")
                tasks.append(w.loop.create_task(meddle()))
        await asyncio.wait([t], timeout=200)
        over.set()
        if not t.done():
            raise Skip("start() did not end")
        if t.result().ok and gw.sessions:
            s = gw.last
            for _ in range(100):
                if s.state == "open" or s.dead:
                    break
                await asyncio.sleep(0.05)
            answers, count = lf.get("answers") or [[]], [0]

            def answer(s_, f):
                a = answers[count[0] % len(answers)]
                count[0] += 1
                at = 0
                for text, d in a:
                    at += d
                    w.sim.after(at, lambda text=text: None if s_.dead else s_.send_text(f if text == "echo" else text))

            s.on_frame = answer
            for n, (at, what) in enumerate(lf["frames"]):
                w.sim.after(at, lambda what=what, n=n: None if s.dead else s.send_text(event_frame(what, n)))
            if lf.get("stall"):
                s.conn._stall(lf["stall"])
            if kind == "event":
                lt = w.spawn(c.loop(), "loop", w.sim.t + lf["for"] if lf["loop"] == "cancel" else None)
                tasks.append(lt)
                if lf["loop"] == "twice":
                    tasks.append(w.spawn(c.loop(), "loop"))
            for o in lf.get("ops", ()):
                async def go(o=o):
                    await asyncio.sleep(o["at"])
                    await w.spawn(self.operation(c, o), f"{o['op']}#{o['n']}", w.when(o))
                tasks.append(w.loop.create_task(go()))
            if lf.get("bulk"):
                await self.bulk(w, c, s, lf, tasks)
            await asyncio.sleep(lf["for"])
            end = lf["end"]
            if end in ("eof", "rst", "vanish"):
                s.drop(end)
            elif end == "garbage":
                s.conn.send(b"xx\xff##")
            w.log("app", "end of life", k, end)
        else:
            end = lf["end"]
        if end.startswith("close"):
            for _ in range(2 if end == "close2" else 1):
                await w.outcome(c.close(), "close")
        elif end in ("eof", "rst", "garbage"):
            await asyncio.sleep(0.5)

    async def bulk(self, w, c, s, lf, tasks):
        what = lf["bulk"]
        await asyncio.sleep(max(3.5, lf.get("stall", 0) + 0.5))
        if s.dead or not s.conn.client_open or lf.get("loop", "plain") != "plain":
            return
        gc.collect()
        before = self.held(c)
        k = "light.luminosity" if what in ("read", "exchange") else what
        s.conn.send("".join(event_frame(k, n) for n in range(MANY)).encode(), [])
        w.sim.count("fault", "flood of frames")
        if what == "read":
            for _ in range(MANY + 50):
                o = await w.outcome(c.read_message(timeout=1), "read", log=False)
                if not o.ok:
                    break
        else:
            await asyncio.sleep(5)
        if what == "exchange":
            from pyown.items.lighting import Light

            s.on_frame = lambda s_, f: s_.send_text(own.ACK)
            o = await w.outcome(Light(c, "29").turn_on(), "command")
        o = None
        await asyncio.sleep(12)         # slow callbacks end
        if not s.dead and s.conn.client_open:
            self.measure(w, f"{MANY} frames ({what})", c, before)

    async def use(self, w, sc, gw):
        c = make_client(gw, sc["kind"], "12345")
        tasks = []
        for k, lf in enumerate(sc["lives"]):
            await self.life(w, sc, gw, c, lf, k, tasks)
        await w.outcome(c.close(), "close")
        await self.end(tasks, 120)
        if [t for t in tasks if not t.done()]:
            w.viol("call", "a call abandoned by its caller after the client was closed does not end")
        tasks.clear()
        await asyncio.sleep(SETTLE)
        gc.collect()
        n = sum(r() is not None for r in w.sim.transports)
        if len(w.sim.transports) >= 4 and n > 2:
            w.viol("sessions-kept", f"the client was opened {len(sc['lives'])} times and is closed, it still holds on to {n} of {len(w.sim.transports)} connections")
        return weakref.ref(c)

    def run(self, sc):
        async def main(w):
            own_timers = {id(h) for h in w.loop._scheduled}
            gw = SimGateway(w.sim, plans=[lf["plan"] for lf in sc["lives"]], net=sc["net"], seed=sc["seed"])
            for cb in sc.get("cbs", ()):
                register(cb["k"], self.callback(w, cb["do"]))
            me = asyncio.current_task()
            client = await self.use(w, sc, gw)
            held = max([s.conn.stall_until - w.sim.t0 for s in gw.sessions] + [0])
            await w.until(held + SETTLE)
            # what is left of the client in the process?
            left = [s.conn.name for s in gw.sessions if s.conn.client_open]
            if left:
                w.viol("socket", f"{SETTLE:.0f} s after the client was closed the sockets of {left} are still open")
            left = [t for t in asyncio.all_tasks() if t is not me]
            if left:
                w.viol("task", f"{SETTLE:.0f} s after the client was closed and all calls and callbacks ended, tasks are running: "
                               f"{sorted(t.get_coro().__qualname__ for t in left)}")
            left = [h for h in w.loop._scheduled if not h.cancelled() and id(h) not in own_timers and getattr(h._callback, "__self__", None) is not w.sim]
            if left:
                w.viol("timer", f"{SETTLE:.0f} s after the client was closed timers are pending: {sorted(getattr(h._callback, '__qualname__', str(type(h._callback))) for h in left)}")
            left = None
            gc.collect()
            if client() is not None:
                w.viol("client-kept", "the application dropped the client, something of the library still refers to it: "
                                      f"{sorted(type(x).__name__ for x in gc.get_referrers(client()))}")
            w.probe("clients judged")

        return execute(sc, main)
