"""P08 command outcomes, P09 query results, P17 bounded time: many tasks, abandoned operations, every answer pattern."""
import asyncio
import random

from .. import own
from .common import *  # noqa
from .common import Family

LIMIT = 5.0          # documented seconds per expected frame (read_message)
TOL = 0.4            # scheduling lag allowed by the simulation


# -- operations -----------------------------------------------------------------------------------
def cmd_ops():
    from pyown.items.automation import Automation
    from pyown.items.camera import Camera
    from pyown.items.energy import EnergyManagement
    from pyown.items.lighting import Dimmer, Light

    W = lambda n: str(2000 + n)

    def cam(c, n):
        # these frames carry no address: every operation of a run has its own function
        name = CAM_CALLS[n % len(CAM_CALLS)][0]
        it = Camera(c, str(4000 + n))
        return it.display_dial(*name) if isinstance(name, tuple) else getattr(it, name)()

    return {
        "camera": cam,
        "camera.video": lambda c, n: Camera(c, str(4000 + n)).receive_video(),
        "light.on": lambda c, n: Light(c, W(n)).turn_on(),
        "light.off": lambda c, n: Light(c, W(n)).turn_off(),
        "light.blink": lambda c, n: Light(c, W(n)).blink_1_0_sec(),
        "light.temp": lambda c, n: Light(c, W(n)).temporization_command(1, 2, 3),
        "dimmer.50": lambda c, n: Dimmer(c, W(n)).set_50_percent(),
        "dimmer.hsv": lambda c, n: Dimmer(c, W(n)).set_hsv(10, 20, 30),
        "auto.up": lambda c, n: Automation(c, W(n)).up(),
        "auto.stop": lambda c, n: Automation(c, W(n)).stop(),
        "energy.force": lambda c, n: EnergyManagement(c, f"7{n + 1}#0").force_actuator_on(3),
        "energy.report": lambda c, n: EnergyManagement(c, f"5{n + 1}").start_sending_daily_totalizers_hourly(3, 4),
        "energy.power": lambda c, n: EnergyManagement(c, f"5{n + 1}").start_sending_instant_power(5),
    }


CAM_CALLS = [("free_resources", "9"), ("zoom_in", "120"), ("zoom_out", "121"), ("increase_x_coordinate", "130"), ("decrease_x_coordinate", "131"),
             ("increase_y_coordinate", "140"), ("decrease_y_coordinate", "141"), ("increase_luminosity", "150"), ("decrease_luminosity", "151"),
             ("increase_contrast", "160"), ("decrease_contrast", "161"), ("increase_color", "170"), ("decrease_color", "171"),
             ("increase_quality", "180"), ("decrease_quality", "181")] + [((a, b), f"3{a}{b}") for a in range(1, 5) for b in range(1, 5)]
CAM_UID = {f"*7*{what}##": n for n, (_, what) in enumerate(CAM_CALLS)}


def uid_of(frame):
    """Number of the operation a frame received by the gateway belongs to."""
    if frame in CAM_UID:
        return CAM_UID[frame]
    kind, f = own.classify(frame)
    where = f.get("where", "")
    if f.get("who") == "7" and where.isdigit():
        return int(where) - 4000
    if f.get("who") == "18":
        return int(where.split("#")[0][1:]) - 1
    if f.get("who") in ("1", "2") and where.isdigit() and int(where) >= 2000:
        return int(where) - 2000
    if f.get("who") == "13":
        return GW_DIM.get(f.get("dimension"))
    return None


GW_DIM = {}


def query_ops():
    from pyown.items.automation import Automation
    from pyown.items.energy import EnergyManagement
    from pyown.items.lighting import Dimmer, Light

    W = lambda n: str(2000 + n)
    # name: (factory of an async iterator or coroutine, request kind, record frame maker(where, values), decoder)
    return {
        "light": (lambda c, n: Light(c, W(n)).get_status(), lambda r: own.normal(1, r[1] % 2, r[0]), lambda r: (r[0], bool(r[1] % 2))),
        "dimmer": (lambda c, n: Dimmer(c, W(n)).get_status(), lambda r: own.normal(1, 2 + r[1] % 9, r[0]), lambda r: (r[0], (2 + r[1] % 9) * 10)),
        "auto": (lambda c, n: Automation(c, W(n)).get_status(), lambda r: own.normal(2, r[1] % 3, r[0]), lambda r: (r[0], str(r[1] % 3))),
        "temp": (lambda c, n: Light(c, W(n)).temporization_request(), lambda r: own.dimres(1, r[0], 2, r[1] % 24, r[1] % 60, (r[1] // 60) % 60),
                 lambda r: (r[0], r[1] % 24, r[1] % 60, (r[1] // 60) % 60)),
        "work": (lambda c, n: Light(c, W(n)).request_working_time_lamp(), lambda r: own.dimres(1, r[0], 8, r[1]), lambda r: (r[0], r[1])),
        "bright": (lambda c, n: Dimmer(c, W(n)).request_current_brightness_speed(), lambda r: own.dimres(1, r[0], 1, 100 + r[1] % 101, r[1] % 256),
                   lambda r: (r[0], 100 + r[1] % 101, r[1] % 256)),
        "hsv": (lambda c, n: Dimmer(c, W(n)).request_current_hsv(), lambda r: own.dimres(1, r[0], 12, r[1] % 360, r[1] % 101, r[1] % 97),
                lambda r: (r[0], r[1] % 360, r[1] % 101, r[1] % 97)),
        "white": (lambda c, n: Dimmer(c, W(n)).request_current_white_temperature(), lambda r: own.dimres(1, r[0], 14, r[1]), lambda r: (r[0], r[1])),
        "power": (lambda c, n: EnergyManagement(c, f"5{n + 1}").get_active_power(), lambda r: own.dimres(18, r[0], 113, r[1]), lambda r: float(r[1])),
        "total": (lambda c, n: EnergyManagement(c, f"5{n + 1}").get_energy_unit_totalizer(), lambda r: own.dimres(18, r[0], 51, r[1]), lambda r: float(r[1])),
        "month": (lambda c, n: EnergyManagement(c, f"7{n + 1}#0").get_energy_unit_per_month(3, 24), lambda r: own.dimres(18, r[0], "52#24#3", r[1]),
                  lambda r: float(r[1])),
    }


SINGLE = ("power", "total", "month")


def norm(v):
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)) and type(v) in (int, float):
        return v
    return str(v)


class Bench:
    """One command session; the gateway answers every operation as the scenario says; all frame times are recorded."""

    def __init__(self, w, gw, c, ops):
        self.w, self.gw, self.c, self.ops = w, gw, c, ops
        gw.last.on_frame = gw.on_frame = self.on_frame
        self.arrivals = []      # (arrival time, text, owner uid or None, session)
        self.got = {}           # uid -> number of request frames received
        self.ends = {}          # session -> time it was ended
        self.shut = []          # [from, to]: when the client was not open
        self.outs = {}          # uid -> how the operation ended
        self.offsets = {}       # number of the arrival -> where it ends in the stream to the client
        self.starts = {}        # uid -> session, bytes read when the operation was called
        self.marks = []         # (uid, session, bytes sent, bytes read) when an operation ended

    def send(self, text, owner, s=None):
        s = s or self.gw.last
        if s.dead or s.state != "open" or not s.conn.client_open:
            return
        at = s.send_text(text)
        self.arrivals.append((at - self.w.sim.t0, text, owner, s))
        self.offsets[len(self.arrivals) - 1] = s.conn.delivered + s.conn.inflight

    async def reopen(self, how, pause):
        """The session ends and the client is opened again, whatever waits at that moment."""
        s, t = self.gw.last, self.w.sim.t
        self.ends[s] = t
        self.shut.append([t, 1e9])
        if how == "close":
            await self.w.outcome(self.c.close(), "close")
        elif how != "start":
            s.drop(how)
        await asyncio.sleep(pause)
        o = await self.w.outcome(self.c.start(), "start again")
        self.w.sim.count("fault", f"reopened after {how}")
        self.shut[-1][1] = self.w.sim.t
        if not o.ok:
            self.w.viol("reopen", f"opening again after {how} ended with {o}")
        return o.ok

    def on_frame(self, s, f):
        n = uid_of(f)
        if n is None or n >= len(self.ops) or self.ops[n] is None:
            self.w.viol("foreign", f"the gateway received {f!r}, which no operation sends")
            return
        self.got[n] = self.got.get(n, 0) + 1
        if self.got[n] > 1:
            self.w.viol("twice", f"the request of operation {n} reached the gateway twice: {f!r}")
            return
        t = 0.0
        for text, d in self.ops[n]["answer"]:
            t += d
            self.w.sim.after(t, self.send, f if text == "echo" else text, n, s)

    async def marked(self, n, coro):
        s = self.gw.last
        self.starts[n] = s, s.conn.consumed
        try:
            return await coro
        finally:
            s = self.gw.last
            self.marks.append((n, s, len(s.conn.tx_bytes), s.conn.consumed))

    def stale(self, n, s):
        """The frames the client had read when operation n was called, or when an operation ended that had been sent, and
        had ended, before operation n was sent."""
        order = [(f_end - len(f), uid_of(f)) for f_end, f in self.sent_frames(s)]
        before = {}
        for start, u in order:
            if u == n:
                break
            before[u] = start
        else:
            return ()
        read = self.starts[n][1] if n in self.starts and self.starts[n][0] is s else 0
        for u, x, sent, consumed in self.marks:
            if x is s and u in before and sent <= start and not self.ops[u].get("slow"):
                read = max(read, consumed)
        return {id(a) for k, a in enumerate(self.arrivals) if a[3] is s and self.offsets[k] <= read}

    def issue_time(self, n):
        """When the first byte of operation n's request was accepted by the network, whether unread bytes waited then, and the session."""
        for s in self.gw.sessions:
            for f_end, f in self.sent_frames(s):
                if uid_of(f) == n:
                    start = f_end - len(f)
                    for t, off, ln, inflight, rx in s.conn.tx_log:
                        if off <= start < off + ln:
                            return t, rx, s
        return None, 0, None

    @staticmethod
    def sent_frames(s):
        base = s.raw_after or 0
        buf = bytes(s.conn.tx_bytes[base:]).decode("latin-1")
        pos, out = base, []
        for part in buf.split("##")[:-1]:
            pos += len(part) + 2
            out.append((pos, part + "##"))
        return out

    def over(self, n, T):
        """Had the caller of operation n been answered (or given up) when another request left at T?"""
        o = self.ops[n]
        return n not in self.outs or self.outs[n].end <= T + TOL or bool(o.get("slow"))

    def not_open(self, a, e):
        """Was the client not open at some moment of this time?"""
        return any(x <= e + 0.001 and a <= y + 0.001 for x, y in self.shut)


def gen_answer_cmd(rng):
    r = rng.random()
    d = rng.choice((0, 0, 0.01, 0.1, 0.3, 1.0, 3.0, 4.0))
    if r < 0.5:
        a = [[own.ACK, d]]
    elif r < 0.68:
        a = [[own.NACK, d]]
    elif r < 0.78:
        a = [[rng.choice(["*1*1*77##", "*#1*77*1*100*1##", "*#*11##", "*#1*77##", "*98*2##", "*77*1*1##", "echo"]), d]]
        if rng.random() < 0.6:
            a.append([own.ACK, rng.choice((0, 0.1, 1.0))])
    elif r < 0.9:
        a = []
    else:
        a = [[rng.choice((own.ACK, own.NACK)), rng.choice((5.6, 6.0, 7.5, 9.0))]]
    if a and rng.random() < 0.08:
        a.append([rng.choice((own.ACK, own.NACK)), rng.choice((0, 0.2, 2.0))])     # a second answer
    return a


def gen_ops(rng, names, answer, many=True):
    tasks, n = [], 0
    if many and rng.random() < 0.04:
        # a queue: many tasks at once, and the gateway answers few of them
        for _ in range(rng.choice((4, 8, 16))):
            name = rng.choice(names)
            o = {"op": name, "n": n, "gap": 0, "answer": answer(rng, name, n) if rng.random() < 0.4 else []}
            if rng.random() < 0.05:
                o["cancel"] = gen_cancel(rng, (4.0, 18.0, 31.0, 62.0))
            tasks.append({"start": rng.choice((0, 0, 0, 0.01, 0.5, 2.0)), "ops": [o]})
            n += 1
        return tasks, n
    for _ in range(rng.choice((1, 1, 2, 3, 5) if many else (1,))):
        ops = []
        for _ in range(rng.choice((1, 2, 3, 5))):
            name = rng.choice(names)
            o = {"op": name, "n": n, "gap": rng.choice((0, 0, 0, 0.05, 0.5, 2.0, 8.0)), "answer": answer(rng, name, n)}
            if rng.random() < 0.22:
                o["cancel"] = gen_cancel(rng, (0, 0.001, 0.02, 0.1, 0.5, 1.0, 2.0, 4.0))
            ops.append(o)
            n += 1
        tasks.append({"start": rng.choice((0, 0, 0.01, 0.5, 2.0)), "ops": ops})
    return tasks, n


def gen_unsolicited(rng, horizon=20):
    out = []
    for _ in range(rng.choice((0, 0, 1, 3, 6))):
        out.append([round(rng.uniform(0, horizon), 2), rng.choice([own.ACK, own.NACK, "*1*1*66##", "*1*0*66##", "*#1*66*1*110*5##", "*2*1*66##",
                                                                 "*#13**0*1*2*3*001##", "*#18*51*113*99##"])])
    return out


def gen_reopen(rng, sc):
    """Now and then the session ends in the middle and the client is opened again, while tasks wait for answers or their turn."""
    if rng.random() < 0.15:
        at = 0
        sc["reopen"] = []
        for _ in range(rng.choice((1, 1, 2))):
            at += round(rng.choice((rng.uniform(0, 0.5), rng.uniform(0, 3), rng.uniform(0, 12))), 3)
            sc["reopen"].append([at, rng.choice(("close", "close", "eof", "rst", "start")), rng.choice((0, 0, 0, 0.01, 0.3, 3.0))])
    return sc


LATE = "late-answer"    # key of the recorded finding


class P08(Family):
    prop = "P08"
    frozen = ("n", "op")
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: 1-5 tasks with 1-5 commands each (lights, dimmers, shutters, energy) on one client; each answered ACK, NACK, "
            "something else, twice, late or never; commands cancelled at any time; unsolicited frames and stray acknowledgements at "
            "any time. A command is judged by the frames that arrive after its bytes left.")

    def gen(self, rng, i, tier):
        if i == 0:
            # the recorded finding: the answer of a command that timed out arrives while the next one waits
            return {"net": {"lat": 0.01}, "unsolicited": [],
                    "tasks": [{"start": 0, "ops": [{"op": "light.on", "n": 0, "gap": 0, "answer": [[own.ACK, 6.0]]},
                                                   {"op": "light.off", "n": 1, "gap": 0.1, "answer": [[own.NACK, 3.0]]}]}]}
        sc = {"kind": rng.choice(("cmd", "cmd", "old")), "plan": gen_handshake(rng), "net": gen_net(rng)}
        gen_common(rng, sc)
        names = sorted(cmd_ops())
        sc["tasks"], n = gen_ops(rng, names, lambda r, name, k: gen_answer_cmd(r))
        sc["unsolicited"] = gen_unsolicited(rng)
        if rng.random() < 0.3:
            sc["unsolicited"] = []
        gen_reopen(rng, sc)
        return sc

    def factory(self, c, o, out):
        f = cmd_ops()[o["op"]]
        return f(c, o["n"])

    def run(self, sc):
        def judge(w, b, o, out, T, frames, end):
            expect_command(w, b, o, out, T, frames)

        return run_exchange(self, sc, judge)


def run_exchange(fam, sc, judge):
    async def main(w):
        GW_DIM.clear()
        gw = SimGateway(w.sim, plans=[sc.get("plan", {})], net=sc.get("net", {}), seed=sc["seed"])
        c = await open_client(w, gw, sc.get("kind", "cmd"))
        size = 1 + max([o["n"] for t in sc["tasks"] for o in t["ops"]], default=0)
        ops = [None] * size
        for t in sc["tasks"]:
            for o in t["ops"]:
                ops[o["n"]] = o
        b = Bench(w, gw, c, ops)
        outs = b.outs
        got = {}

        async def task(t):
            await asyncio.sleep(t.get("start", 0))
            for o in t["ops"]:
                if o.get("gap"):
                    await asyncio.sleep(o["gap"])
                res = got[o["n"]] = []
                coro = b.marked(o["n"], fam.factory(c, o, res))
                outs[o["n"]] = await w.spawn(coro, f"{o['op']}#{o['n']}", w.when(o))

        for at, f in sc.get("unsolicited", ()):
            w.sim.after(at, b.send, f, None)
        async def supervisor():
            for at, how, pause in sc["reopen"]:
                await w.until(t0 + at)
                if not await b.reopen(how, pause):
                    return

        t0 = w.sim.t
        tasks = [w.loop.create_task(task(t)) for t in sc["tasks"]]
        if sc.get("reopen"):
            tasks.append(w.loop.create_task(supervisor()))
        total = sum(len(t["ops"]) for t in sc["tasks"])
        frames = sum(len(o["answer"]) + (o.get("slow") or [0, 0])[1] for t in sc["tasks"] for o in t["ops"])
        budget = 30 + total * 15 + frames * (LIMIT + 1) + 10 + sum(30 + r[0] + r[2] for r in sc.get("reopen", ()))
        pend = await w.finish(tasks, budget)
        if pend:
            w.viol("hang", f"{len(pend)} tasks have not finished after {budget:.0f} s")
            return
        await asyncio.sleep(15)
        for n, o in enumerate(ops):
            if o is None:
                continue
            out = outs[n]
            T, rx, s = b.issue_time(n)
            if o.get("stop") == 0:
                continue
            if out.kind == "cancelled":
                if o.get("cancel") is None:
                    w.viol("error-kind", f"{o['op']}#{n} was cancelled by nobody")
                w.probe("abandoned operations")
                continue
            if T is None and out.kind == "InvalidSession" and b.not_open(out.start, out.end):
                w.probe("refused: not open")
                continue
            if T is None:
                w.viol("outcome", f"{o['op']}#{n} ended with {out} although its request was never sent")
                continue
            if T > out.end + 0.001 and any(a[3] is s and out.start - TOL <= a[0] <= out.end + 0.001 and a[2] != n for a in b.arrivals):
                # its bytes waited in the write buffer
                w.probe("not judged: a foreign frame arrived as the request left")
                continue
            if T > out.end + 0.001:
                w.viol("outcome", f"{o['op']}#{n} ended with {out} before its request left at {T:.3f}")
                continue
            # frames that can reach this operation: everything arriving after its bytes left
            stale = b.stale(n, s)
            if any(T - TOL <= a[0] for a in b.arrivals if id(a) in stale):
                w.probe("a frame was left over right before the request left")
            near = [a for a in b.arrivals if T - TOL <= a[0] <= T + 0.02 and a[2] != n and a[3] is s and id(a) not in stale]
            if near or rx:
                w.probe("not judged: a foreign frame arrived as the request left")
                continue
            b.end = b.ends.get(s)
            later = sorted([a for a in b.arrivals if a[3] is s and id(a) not in stale and a[0] >= T and a[0] <= max(out.end, T + LIMIT) + TOL], key=lambda a: a[0])
            judge(w, b, o, out, T, later, out.end)
        w.probe("operations", total)

    return execute(sc, main)


def expect_command(w, b, o, out, T, frames):
    n = o["n"]
    own_frames = [a for a in frames if a[2] == n]
    first = own_frames[0] if own_frames else None
    # what the caller must see
    if first is None or first[0] - T > LIMIT + TOL:
        want = {"timeout"}
    elif first[0] - T > LIMIT - TOL:
        want = {"timeout", "ok" if first[1] == own.ACK else "ResponseError"}
    else:
        want = {"ok"} if first[1] == own.ACK else {"ResponseError"}
    E = b.end
    cut = E is not None and E - TOL < min(first[0] if first else 1e9, T + LIMIT + TOL)     # the session ended before the outcome was certain
    if cut:
        want |= {"timeout", "InvalidSession"}
    foreign = [a for a in frames if a[2] != n and (first is None or a[0] <= first[0] + 0.001) and a[0] <= out.end + 0.001]
    if any(a[2] is None for a in foreign):
        w.probe("not judged: unsolicited frame while the command waited")
        return
    if foreign:
        late = any(b.over(a[2], T) for a in foreign)
        w.probe("late answer of an abandoned command arrived")
        if out.kind not in want:
            w.viol("late-answer" if late else "swapped", f"{o['op']}#{n}: expected {sorted(want)}, got {out}; decided by {foreign[0][1]}, the answer to "
                                  f"operation {foreign[0][2]}, which {'had ended' if late else 'waited at the same time'}", key=LATE if late else "swapped")
        return
    if out.kind == "other":
        w.viol("error-kind", f"{o['op']}#{n} ended with {out}")
    elif out.kind not in want:
        w.viol("outcome", f"{o['op']}#{n} left at {T:.3f}, answers {[(round(a[0], 3), a[1]) for a in own_frames]}: expected {sorted(want)}, got {out}")
    if out.end - T > LIMIT + TOL:
        w.viol("overdue", f"{o['op']}#{n} took {out.end - T:.2f} s after its request left")
    if out.kind == "timeout" and out.end - T < LIMIT - TOL and not cut:
        w.viol("hasty", f"{o['op']}#{n} timed out {out.end - T:.2f} s after its request left, the limit is {LIMIT} s")
    w.probe(f"judged: {out.kind}")


class P09(Family):
    prop = "P09"
    frozen = ("n", "op", "slow")
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: 1-5 tasks with 1-5 status or value queries each (lights, dimmers, shutters, all light dimensions, energy "
            "readings) on one client, 0-6 records per answer with gaps, ended by ACK, NACK, an unexpected frame or silence; callers "
            "that stop reading halfway or are cancelled; unsolicited frames at any time.")

    def gen_answer(self, rng, name, n):
        q = query_ops()[name]
        k = rng.choice((0, 1, 1, 1, 2, 3, 6)) if name not in SINGLE else rng.choice((1, 1, 1, 1, 0, 2))
        big = name not in SINGLE and rng.random() < 0.03
        if big:
            k = rng.choice((20, 40, 70, 150, 300) * 3 + (600, 990))      # an area or a whole house answers
        recs = []
        for j in range(k):
            where = f"5{n + 1}" if name in ("power", "total") else f"7{n + 1}#0" if name == "month" else str((30000 + n * 1000 if big else 3000 + n * 10) + j)
            if name not in SINGLE and not big and rng.random() < 0.06:
                where = rng.choice(("0", "00", "100", "1", "#1", "#255", "11#4#01", "0#4#01", "0915", "#1#4#02"))       # a group or an area answers, or a local bus
            recs.append([where, 1 + n * 37 + j * 7 + rng.randrange(50) * 1000])
            if j and rng.random() < 0.08:
                recs[-1] = list(recs[-2])               # the same record again: two actuators with one address
        fr = [[q[1](r), rng.choice((0, 0, 0, 0.01, 0.5, 2.0, 4.0)) if not big or rng.random() < 0.02 else 0] for r in recs]
        r = rng.random()
        d = rng.choice((0, 0, 0.01, 0.3, 3.0))
        cut = rng.randrange(0, k + 1)
        if r < 0.62:
            fr.append([own.ACK, d])
        elif r < 0.76:
            fr = fr[:cut] + [[own.NACK, d]]
        elif r < 0.86:
            bad = rng.choice(["*#1*77*1*100*1##", "*98*2##", "*#*11##", "*77*1*1##"]) if name in ("light", "dimmer", "auto") else \
                rng.choice(["*1*1*77##", "*98*2##", "*#*11##", "*#1*77##"])
            fr = fr[:cut] + [[bad, d]] + fr[cut:] + [[own.ACK, 0]]
        elif r < 0.94:
            fr = fr[:cut]
        else:
            fr = fr[:cut] + [[x[0], 6.5 if j == 0 else x[1]] for j, x in enumerate(fr[cut:] + [[own.ACK, 0.1]])]
        return fr

    def gen(self, rng, i, tier):
        if i == 0:
            # the recorded finding, for a query
            return {"net": {"lat": 0.01}, "unsolicited": [],
                    "tasks": [{"start": 0, "ops": [{"op": "work", "n": 0, "gap": 0, "answer": [["*#1*3000*8*11##", 6.0], [own.ACK, 0]]},
                                                   {"op": "work", "n": 1, "gap": 0.1, "answer": [["*#1*3010*8*22##", 3.0], [own.ACK, 0]]}]}]}
        sc = {"kind": rng.choice(("cmd", "cmd", "old")), "plan": gen_handshake(rng), "net": gen_net(rng)}
        gen_common(rng, sc)
        gen_reopen(rng, sc)
        sc["tasks"], n = gen_ops(rng, sorted(query_ops()), self.gen_answer)
        for t in sc["tasks"]:
            for o in t["ops"]:
                if o["op"] not in SINGLE and rng.random() < 0.12:
                    o["stop"] = rng.randrange(0, 3)
                if o["op"] not in SINGLE and rng.random() < (0.5 if sc.get("reopen") else 0.1):
                    o["slow"] = [rng.randrange(0, 3), rng.choice((0.01, 0.5, 2.0, 8.0))]    # the caller works on a record
        if sc.get("reopen") and rng.random() < 0.5:
            # a caller works on a record while the session is replaced, another task goes on with the new one
            sc["tasks"] = sc["tasks"][:3]
            o = sc["tasks"][0]["ops"][0]
            o.update(op=rng.choice([k for k in sorted(query_ops()) if k not in SINGLE]), gap=0, slow=[0, rng.choice((0.5, 1.0, 2.0, 3.0))])
            o["answer"] = self.gen_answer(rng, o["op"], o["n"])
            o.pop("stop", None), o.pop("cancel", None)
            sc["reopen"] = [[round(rng.uniform(0.1, 1.0), 2), rng.choice(("close", "start", "eof", "rst")), 0]]
            for _ in range(rng.choice((0, 0, 1, 3))):       # they wait for their turn when the session is replaced
                name = rng.choice(sorted(query_ops()))
                sc["tasks"].append({"start": 0.03, "ops": [{"op": name, "n": n, "gap": 0, "answer": self.gen_answer(rng, name, n)}]})
                n += 1
            sc["tasks"].append({"start": rng.choice((0.5, 1.0, 2.0)), "ops": []})
            for k in range(n, n + 4):
                name = rng.choice(sorted(query_ops()))
                sc["tasks"][-1]["ops"].append({"op": name, "n": k, "gap": rng.choice((0, 0.3, 1.0)), "answer": self.gen_answer(rng, name, k)})
        sc["unsolicited"] = gen_unsolicited(rng) if rng.random() < 0.6 else []
        if any(len(o["answer"]) > 10 for t in sc["tasks"] for o in t["ops"]):
            sc["net"].pop("recv_cap", None)     # a long answer read byte by byte takes seconds
        return sc

    def factory(self, c, o, res):
        q = query_ops()[o["op"]][0]
        if o["op"] in SINGLE:
            async def single():
                res.append(await q(c, o["n"]))
            return single()

        async def many():
            it = q(c, o["n"])
            if o.get("stop") == 0:
                await it.aclose()
                return
            async for r in it:
                res.append(r)
                if o.get("stop") is not None and len(res) >= o["stop"]:
                    await it.aclose()
                    break
                if o.get("slow") and len(res) == o["slow"][0] + 1:
                    await asyncio.sleep(o["slow"][1])
        many_ = many()
        o["_res"] = res
        return many_

    def run(self, sc):
        for t in sc["tasks"]:
            for o in t["ops"]:
                o.pop("_res", None)

        def judge(w, b, o, out, T, frames, end):
            self.judge(w, b, o, out, T, frames)

        fam = self
        store = {}

        class F:
            prop = self.prop

            @staticmethod
            def factory(c, o, res):
                store[o["n"]] = res
                return fam.factory(c, o, res)

        self.store = store
        return run_exchange(F, sc, judge)

    def judge(self, w, b, o, out, T, frames):
        n = o["n"]
        if o.get("stop") == 0:
            return
        mine = [a for a in b.arrivals if a[2] == n]
        mine.sort(key=lambda a: a[0])
        dec = query_ops()[o["op"]]
        single = o["op"] in SINGLE
        status = o["op"] in ("light", "dimmer", "auto")
        res = [norm(x) for x in self.store[n]]
        # replay the answer: records until the final acknowledgement, each within the limit of the one before
        slow = o.get("slow") or [0, 0]
        prev, recs, want, fuzzy, bad, last = T, [], None, False, False, T
        for at, text, _, _ in mine:
            gap = at - prev
            if gap > LIMIT + TOL:
                want = "timeout"
                break
            if gap > LIMIT - TOL:
                fuzzy = True
            prev = last = max(prev, at)
            kind, f = own.classify(text)
            if kind == "ACK":
                want = "ok"
                break
            if kind == "NACK":
                want = "ResponseError"
                break
            if kind != ("NORMAL" if status else "DIMENSION RESPONSE"):
                bad = True
                continue
            if not bad:
                recs.append(text)
                if len(recs) == slow[0] + 1 and len(self.store[n]) > slow[0]:
                    prev = last = prev + slow[1]
        else:
            want = "timeout"
        exp = [self.decode(o["op"], t) for t in recs]
        foreign = [a for a in frames if a[2] != n and a[0] <= max(out.end, last) + 0.001]
        if any(a[2] is None for a in foreign):
            w.probe("not judged: unsolicited frame while the query waited")
            return
        if fuzzy:
            return
        stop = o.get("stop")
        E = b.end
        decided = last if want in ("ok", "ResponseError") else last + LIMIT + TOL
        cut = {"timeout", "InvalidSession"} if E is not None and E - TOL < decided else set()
        if cut and any(a[2] is None and E <= a[0] <= out.end + TOL for a in b.arrivals):
            w.probe("not judged: unsolicited frame while the query waited")
            return
        good = True
        if bad:
            ok_kinds = {"ResponseError", "timeout"}
        elif want == "ok" and single and not recs:
            ok_kinds = {"ResponseError"}
        elif want in ("timeout", "ResponseError"):
            ok_kinds = {want}
        else:
            ok_kinds = {"ok"}
        ok_kinds |= cut
        if stop is not None and len(recs) >= stop:
            # the caller stopped after enough records: it may or may not have seen the end
            good = out.kind in ok_kinds | {"ok"} and (out.kind != "ok" or res == exp[:stop])
        elif out.kind not in ok_kinds:
            good = False
        elif out.kind == "ok":
            good = res == (exp[:1] if single else exp)
        else:
            good = res == exp[: len(res)]
        if not good:
            # decided by the rest of an abandoned operation's answer?
            late = any(b.over(a[2], T) for a in foreign)
            w.viol("late-answer" if late else "swapped" if foreign else "result",
                   f"{o['op']}#{n} left at {T:.3f}, the gateway answered {[(round(a[0], 3), a[1]) for a in mine]}: expected {sorted(ok_kinds)} with "
                   f"{exp if not single else exp[:1]}, got {out} with {res}" + (f"; late frames of others: {[a[1:3] for a in foreign][:3]}" if foreign else ""),
                   key=LATE if late else "swapped" if foreign else "result")
        if foreign:
            w.probe("late answer of an abandoned query arrived")
            return
        if out.end - T > (LIMIT + TOL) * (len(mine) + 1) + slow[1]:
            w.viol("overdue", f"{o['op']}#{n} took {out.end - T:.2f} s for {len(mine)} frames")
        w.probe(f"judged: {out.kind}")

    @staticmethod
    def decode(op, text):
        _, f = own.classify(text)
        v = [int(x) for x in f.get("values", ())]
        if op == "light":
            return (f["where"], f["what"] != "0")
        if op == "dimmer":
            return (f["where"], int(f["what"]) * 10)
        if op == "auto":
            return (f["where"], f["what"])
        if op in SINGLE:
            return float(v[0])
        return (f["where"], *v)


class P17(Family):
    prop = "P17"
    frozen = ("n", "op")
    runs = {"quick": 12500, "thorough": 120000}
    rule = ("Cases: 1-4 tasks of commands, queries, raw sends and timed reads; network stalls (also with a full write buffer), "
            "EOF, reset, vanishing gateway, close by the application, at any moment; then recovery: same session after a stall, a "
            "new start after a loss.")

    def gen(self, rng, i, tier):
        sc = {"kind": rng.choice(("cmd", "cmd", "old")), "plan": {"auth": "none"}, "net": gen_net(rng)}
        gen_common(rng, sc)
        mode = rng.choice(("stall", "stall", "loss", "loss", "both"))
        if mode != "loss":
            sc["stalls"] = [[round(rng.choice((rng.uniform(0, 1), rng.uniform(0, 10))), 2), rng.choice((0.2, 1.0, 3.0, 6.0, 20.0, 60.0))]
                            for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.6:
                sc["net"]["high_water"] = rng.choice((0, 0, 1, 20, 60))
        if mode != "stall":
            sc["loss"] = {"at": round(rng.choice((rng.uniform(0, 1), rng.uniform(0, 10))), 3), "how": rng.choice(("eof", "rst", "vanish", "close"))}
        tasks, n = [], 0
        for _ in range(rng.choice((1, 1, 2, 4))):
            ops = []
            for _ in range(rng.choice((1, 2, 4, 6))):
                name = rng.choice(("light.on", "auto.up", "dimmer.hsv", "energy.power", "work", "light", "power", "send", "read", "read"))
                o = {"op": name, "n": n, "gap": rng.choice((0, 0, 0.05, 0.5, 2.0))}
                if name == "read":
                    o["timeout"] = rng.choice((0, 0.001, 0.2, 1, 3, 5, 8))
                if rng.random() < 0.1:
                    o["cancel"] = gen_cancel(rng, (0, 0.05, 0.5, 3.0))
                if rng.random() < 0.25:
                    o["answer"] = rng.choice(([], [[own.ACK, 2.0]], [[own.NACK, 0]], [[own.ACK, 6.0]]))
                ops.append(o)
                n += 1
            tasks.append({"start": rng.choice((0, 0, 0.3, 1.0)), "ops": ops})
        sc["tasks"] = tasks
        return sc

    def run(self, sc):
        async def main(w):
            plan = sc.get("plan", {"auth": "none"})
            gw = SimGateway(w.sim, plans=[plan, {"auth": "none", "net": {"high_water": 65536}}], net=sc.get("net", {}), seed=sc["seed"])
            c = await open_client(w, gw, sc.get("kind", "cmd"))
            s = gw.last
            cmds, qs = cmd_ops(), query_ops()
            plans = {o["n"]: o for t in sc["tasks"] for o in t["ops"]}
            default = {"work": [["*#1*3000*8*7##", 0], [own.ACK, 0]], "light": [["*1*1*3000##", 0], [own.ACK, 0]],
                       "power": [["*#18*51*113*7##", 0], [own.ACK, 0]]}

            def answers(n):
                o = plans.get(n)
                if o is None:
                    return [[own.ACK, 0]]
                return o["answer"] if o.get("answer") is not None else default.get(o["op"], [[own.ACK, 0]])

            def on_frame(s_, f):
                n = uid_of(f)
                t = 0.0
                for text, d in answers(n):
                    t += d
                    w.sim.after(t, s_.send_text, text)

            s.on_frame = gw.on_frame = on_frame
            t0 = w.sim.t
            for a, d in sc.get("stalls", ()):
                w.sim.after(a, s.conn._stall, d)
            # end of the chain of stalls in force at time t
            windows = sorted([t0 + a, t0 + a + d] for a, d in sc.get("stalls", ()))

            def unstalled(t):
                for a, e in windows:
                    if a <= t + 0.2 and e > t:
                        t = e
                return t

            lost = []
            loss = sc.get("loss")
            if loss:
                async def lose():
                    await asyncio.sleep(loss["at"])
                    lost.append(w.sim.t)
                    if loss["how"] == "close":
                        await w.outcome(c.close(), "close")
                        w.sim.count("fault", "closed by the application")
                    else:
                        s.drop(loss["how"])
                w.loop.create_task(lose())
            recs = []

            def make(o):
                name, n = o["op"], o["n"]
                if name == "send":
                    return c.send_message(build_message(own.normal(1, 1, 2000 + n)))
                if name == "read":
                    return c.read_message(timeout=o.get("timeout", 5))
                if name in cmds:
                    return cmds[name](c, n)

                async def q():
                    it = qs[name][0](c, n)
                    if hasattr(it, "__aiter__"):
                        return [norm(x) async for x in it]
                    return await it
                return q()

            def exchange(name):
                return name not in ("send", "read")

            async def task(t):
                await asyncio.sleep(t.get("start", 0))
                for o in t["ops"]:
                    if o.get("gap"):
                        await asyncio.sleep(o["gap"])
                    out = await w.spawn(make(o), f"{o['op']}#{o['n']}", w.when(o))
                    recs.append((o, out, len(sc["tasks"])))

            tasks = [w.loop.create_task(task(t)) for t in sc["tasks"]]
            worst = sum(t.get("start", 0) for t in sc["tasks"]) + sum(o.get("gap", 0) + (LIMIT + TOL) * (len(answers(o["n"])) + 2) for o in plans.values())
            bound = sum(d for _, d in sc.get("stalls", ())) + 12 + worst
            if loss:
                bound += loss["at"]
            pend = await w.finish(tasks, bound)
            if pend:
                w.viol("hang", f"operations still unfinished after {bound:.0f} s (stalls {sc.get('stalls')}, loss {loss})")
                return
            single = len(sc["tasks"]) == 1
            gone = None
            if loss and loss["how"] in ("eof", "rst", "close"):
                gone = unstalled(lost[0] if lost else 1e9) + 0.7
                if loss["how"] == "eof" and s.conn.down_last:
                    gone = max(gone, s.conn.down_last - w.sim.t0 + 0.7)
                if loss["how"] == "close":
                    gone = (lost[0] if lost else 1e9) + 0.05
            for o, out, _ in recs:
                if out.kind == "other":
                    w.viol("error-kind", f"{o['op']}#{o['n']} ended with {out}")
                if o["op"] == "read" and out.dur > o.get("timeout", 5) + TOL:
                    w.viol("overdue", f"read with limit {o.get('timeout', 5)} s took {out.dur:.2f} s")
                if out.kind == "cancelled" and o.get("cancel") is not None:
                    continue
                if o["op"] == "send" and out.end > unstalled(out.start) + 1.0:
                    w.viol("overdue", f"a send took {out.dur:.2f} s, the network accepted data from {unstalled(out.start):.2f}: {out}")
                if single and exchange(o["op"]):
                    lim = (LIMIT + TOL) * (len(answers(o["n"])) + 1) + 0.6
                    # bytes may be held back by a stall that begins while the operation waits
                    start = unstalled(out.start)
                    if out.end > start + lim:
                        w.viol("overdue", f"{o['op']}#{o['n']} called at {out.start:.2f}, network free from {start:.2f}, ended {out}")
                if gone is not None and out.start > gone:
                    # a read may still return what was received before the loss
                    if out.ok and o["op"] != "read":
                        w.viol("ghost", f"{o['op']}#{o['n']} called {out.start - lost[0]:.2f} s after the connection was lost succeeded")
                    elif out.dur > LIMIT * (len(answers(o["n"])) + 1) + TOL:
                        w.viol("overdue", f"{o['op']}#{o['n']} on a lost connection took {out.dur:.2f} s")
                w.probe(f"ended: {out.kind}")
            # recovery
            await w.until(max([w.sim.t, t0 + (loss["at"] if loss else 0)] + [e for _, e in windows]) + 12)
            from pyown.items.lighting import Light

            if not loss:
                o = await w.outcome(Light(c, "2900").turn_on(), "probe")
                if not o.ok:
                    w.viol("no-recovery", f"12 s after the last stall a command answered at once ended with {o}")
            else:
                o = await w.outcome(Light(c, "2900").turn_on(), "probe")
                if not o.clean_error or o.dur > LIMIT + TOL:
                    w.viol("ghost", f"after the loss ({loss['how']}) and before reopening a command ended with {o}")
                o = await w.outcome(c.start(), "start")
                if not o.ok:
                    w.viol("no-recovery", f"reopening after {loss['how']} ended with {o}")
                    return
                o = await w.outcome(Light(c, "2901").turn_on(), "probe")
                if not o.ok:
                    w.viol("no-recovery", f"after reopening a command answered at once ended with {o}")

        return execute(sc, main)
