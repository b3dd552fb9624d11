"""P13 event delivery, P14 survival of the event loop, P15 end of the loop, P16 items."""
import asyncio

from .common import *  # noqa
from .common import Family

# -- reference: event frames and what they mean (docs/original) -------------------------------------
GW_DIMS = ["0", "1", "10", "11", "12", "15", "16", "19", "22", "23", "24"]
CB_LIGHT = ["light.status", "light.temporization", "light.luminosity", "light.hsv", "light.white"]
CB_ENERGY = ["en." + d for d in ("511", "512", "513", "514", "250", "113", "51", "52", "53", "54", "71", "72", "73")]
CB_ALL = CB_LIGHT + ["auto.status", "cam.status"] + ["gw." + d for d in GW_DIMS] + CB_ENERGY
FLAGS = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off", "check_off",
         "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]
CAMERA_WHAT = ["0", "9", "120", "121", "130", "131", "140", "141", "150", "151", "160", "161", "170", "171", "180", "181"] + [
    f"3{a}{b}" for a in range(1, 5) for b in range(1, 5)]
EN_WHERE = ["51", "52", "510", "5255", "11", "15", "1127", "71#0", "72#0", "710#0", "7255#0"]


def two(n):
    return f"{n:02d}"


def gen_event(rng, kind, where=None):
    """A frame of this kind of event: {"f": text, "k": kind, "w": address, "a": the values it carries}."""
    sysname, _, dim = kind.partition(".")
    if sysname == "light":
        w = where or gen_where(rng, "ppppagb")
        if dim == "status":
            what = rng.choice(("0", "1", "0", "1", str(rng.randrange(2, 11)), str(rng.randrange(11, 19)), str(rng.randrange(20, 30)), f"1#{rng.randrange(256)}",
                               f"0#{rng.randrange(256)}", f"1000#{rng.randrange(2)}"))
            return ev(own.normal(1, what, w), kind, w, [what.removeprefix("1000#").split("#")[0] != "0"])
        if dim == "temporization":
            v = [rng.randrange(256), rng.randrange(60), rng.randrange(60)]
            return ev(own.dimres(1, w, 2, *v), kind, w, v)
        if dim == "luminosity":
            v = [rng.randrange(100, 201), rng.randrange(256)]
            return ev(own.dimres(1, w, 1, *v), kind, w, v)
        if dim == "hsv":
            v = [rng.randrange(360), rng.randrange(101), rng.randrange(101)]
            return ev(own.dimres(1, w, 12, *v), kind, w, v)
        v = [rng.randrange(1, 255)]
        return ev(own.dimres(1, w, 14, *v), kind, w, v)
    if sysname == "auto":
        w = where or gen_where(rng, "ppppagb")
        what = rng.choice(("0", "1", "2"))
        return ev(own.normal(2, what, w), kind, w, [what])
    if sysname == "cam":
        w = where or str(rng.randrange(4000, 4100))
        what = rng.choice(["0", "0"] + CAMERA_WHAT)
        return ev(own.normal(7, what, w), kind, w, [what])
    if sysname == "gw":
        v, a = gw_value(rng, dim)
        f = own.dimwr if dim in ("0", "1", "22") and rng.random() < 0.4 else own.dimres
        return ev(f(13, "", dim, *v), kind, "", [a])
    w = where or rng.choice(EN_WHERE)
    big = rng.choice((0, 1, 9, 100, 65535, 4294967295, rng.randrange(10 ** 6)))
    mo, da = rng.randrange(1, 13), rng.randrange(1, 32)
    if dim == "511":
        h = rng.randrange(1, 26)
        return ev(own.dimres(18, w, f"511#{mo}#{da}", h, big), kind, w, [da, mo, h, big])
    if dim in ("512", "513", "514"):
        h = rng.randrange(1, 26 if dim == "512" else 32)
        return ev(own.dimres(18, w, f"{dim}#{mo}", h, big), kind, w, [mo, h, big])
    if dim == "52":
        y = rng.choice((0, 9, 24, 99))
        return ev(own.dimres(18, w, f"52#{y}#{mo}", big), kind, w, [mo, y, big])
    if dim == "250":
        bits = "".join(rng.choice("01") for _ in range(13))
        return ev(own.dimres(18, w, 250, bits), kind, w, [{n: bits[12 - i] == "1" for i, n in enumerate(FLAGS)}])
    if dim == "71":
        v = [rng.randrange(2) for _ in range(5)] + [rng.choice((1, 2))]
        return ev(own.dimres(18, w, 71, *v), kind, w, [dict(zip(("disabled", "forcing", "threshold", "protection", "phase"), map(bool, v)), advanced=v[5] == 1)])
    if dim == "72":
        n = rng.choice((1, 2))
        d = [rng.randrange(2000, 2100), mo, rng.randrange(1, 29), rng.randrange(24), rng.randrange(60)]
        return ev(own.dimres(18, w, f"72#{n}", big, d[2], d[1], d[0], d[3], d[4]), kind, w, [n, ["dt", *d, 0, None], big])
    if dim == "73":
        v = rng.randrange(1, 4)
        return ev(own.dimres(18, w, 73, v), kind, w, [v])
    return ev(own.dimres(18, w, dim, big), kind, w, [big])


def ev(f, k, w, a):
    return {"f": f, "k": k, "w": w, "a": a}


def gw_value(rng, dim):
    if dim in ("0", "22"):
        t = [rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        z = rng.randrange(-12, 15)
        tv = [two(x) for x in t] + [("1" if z < 0 else "0") + two(abs(z))]
    if dim in ("1", "22"):
        from datetime import date

        d = [rng.randrange(1990, 2100), rng.randrange(1, 13), rng.randrange(1, 29)]
        dv = [two(date(*d).isoweekday() % 7), two(d[2]), two(d[1]), str(d[0])]
    if dim == "0":
        return tv, ["t", *t, z * 3600]
    if dim == "1":
        return dv, ["d", *d]
    if dim == "22":
        return tv + dv, ["dt", *d, *t, z * 3600]
    if dim == "10":
        v = [rng.randrange(256) for _ in range(4)]
        return v, ".".join(map(str, v))
    if dim == "11":
        m = (0xFFFFFFFF << (32 - rng.randrange(1, 31))) & 0xFFFFFFFF
        v = [m >> s & 255 for s in (24, 16, 8, 0)]
        return v, ".".join(map(str, v))
    if dim == "12":
        v = [rng.choice((0, 9, 10, 16, 255, rng.randrange(256))) for _ in range(6)]
        return v, ":".join(f"{x:02x}" for x in v)
    if dim == "15":
        m = rng.choice(["2", "4", "6", "7", "11", "200"])
        return [m], m
    if dim == "19":
        v = [rng.randrange(400), rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        return v, ["td", ((v[0] * 24 + v[1]) * 60 + v[2]) * 60 + v[3]]
    v = [rng.randrange(10), rng.randrange(20), rng.randrange(200)]
    return v, ".".join(map(str, v))


def flat(v):
    """Comparable form of a callback argument."""
    import dataclasses

    if isinstance(v, bool) or type(v) in (int, float):
        return v
    if dataclasses.is_dataclass(v):
        return {f.name: flat(getattr(v, f.name)) for f in dataclasses.fields(v)}
    if hasattr(v, "total_seconds"):
        return ["td", v.total_seconds()]
    off = lambda: None if v.tzinfo is None else v.utcoffset().total_seconds()
    if hasattr(v, "year") and hasattr(v, "hour"):
        return ["dt", v.year, v.month, v.day, v.hour, v.minute, v.second, off()]
    if hasattr(v, "year"):
        return ["d", v.year, v.month, v.day]
    if hasattr(v, "hour"):
        return ["t", v.hour, v.minute, v.second, off()]
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    return str(v)


def same_args(kind, got, want):
    got = list(got)
    if kind.startswith("cam"):
        if len(got) != 2:
            return False
        got = got[:1]
    got = [flat(x) for x in got]
    if kind == "en.72":
        want = [want[0], list(want[1]), want[2]]
        if len(got) == 3 and isinstance(got[1], list):
            got = [got[0], got[1][:-2] + [0, None], got[2]]     # seconds and zone are not in the frame
    if kind == "gw.12":
        got = [str(x).lower() for x in got]
    return got == want


def register(kind, cb, alt=False):
    from pyown.items import Automation, Camera, Dimmer, EnergyManagement, Gateway, Light
    from pyown.items.energy import StopGo
    from pyown.items.gateway import WhatGateway

    sysname, _, d = kind.partition(".")
    if sysname == "light":
        if d == "status":
            (Dimmer if alt else Light).on_status_change(cb)
        elif d == "temporization":
            (Dimmer if alt else Light).on_temporization_change(cb)
        else:
            {"luminosity": Dimmer.on_luminosity_change, "hsv": Dimmer.on_hsv_change, "white": Dimmer.on_white_temp_change}[d](cb)
    elif sysname == "auto":
        Automation.on_status_change(cb)
    elif sysname == "cam":
        Camera.on_status_change(cb)
    elif sysname == "gw":
        Gateway.register_callback(WhatGateway(d), cb)
    else:
        E = StopGo if alt else EnergyManagement
        {"511": E.on_daily_totalizers_hourly, "512": E.on_monthly_average_hourly, "513": E.on_monthly_totalizers_current_year,
         "514": E.on_monthly_totalizers_last_year, "250": E.on_stop_go_status, "113": E.on_instant_power, "51": E.on_energy_unit_totalizer,
         "52": E.on_energy_unit_per_month, "53": E.on_partial_totalizer_current_month, "54": E.on_partial_totalizer_current_day,
         "71": E.on_actuators_info, "72": E.on_totalizer_since_reset, "73": E.on_differential_current_level}[d](cb)


ITEM_CLASS = {"light": "Light", "auto": "Automation", "cam": "Camera", "gw": "Gateway", "en": "EnergyManagement"}


class Boom(Exception):
    pass


def gen_do(rng, nasty=0.3):
    r = rng.random()
    if r > nasty:
        return ["log"] if rng.random() < 0.6 else ["sleep", rng.choice((0.001, 0.1, 2.0, 7.0, 30.0) * 4 + (70.0, 400.0, 4000.0))]
    return rng.choice((["raise"], ["raise"], ["raise_after", rng.choice((0, 0.01, 1.0))], ["cancel"], ["hang"], ["timeout"], ["session"], ["key"], ["stop"], ["badstr"], ["cancelled"], ["now"], ["now_cancelled"]))


class BadStr(Exception):
    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


class Recorder:
    """Registers the scenario's callbacks and records every invocation."""

    def __init__(self, w, clients):
        self.w, self.clients = w, clients
        self.raised = []      # [callback kind, exception]
        self.on_call = None     # [n, what to await in the n-th call from now]
        self.calls = []       # [cb index, client index, item, args, start time, end time or None]

    def make(self, i, cb):
        import pyown.exceptions as ex

        do = cb.get("do", ["log"])
        w = self.w

        def now(item, *args):
            """A plain function, which fails before there is a coroutine."""
            c = next((k for k, x in enumerate(self.clients) if x is item.client), None)
            self.calls.append([i, c, item, args, w.sim.t, None])
            w.log("cb", cb["k"], i, str(item.where), [flat(a) for a in args[:1 if cb["k"].startswith("cam") else None]])
            w.ops += 1
            w.sim.count("fault", "callback raises when called")
            if do[0] == "now_cancelled":
                raise asyncio.CancelledError()
            raise self.boom(cb)

        async def callback(item, *args):
            c = next((k for k, x in enumerate(self.clients) if x is item.client), None)
            rec = [i, c, item, args, w.sim.t, None]
            self.calls.append(rec)
            w.log("cb", cb["k"], i, str(item.where), [flat(a) for a in args[:1 if cb["k"].startswith("cam") else None]])
            w.ops += 1
            if self.on_call:
                self.on_call[0] -= 1
                if self.on_call[0] < 0:
                    act, self.on_call = self.on_call[1], None
                    await act()
            k = do[0]
            if k == "sleep":
                w.sim.count("fault", "slow callback")
                await asyncio.sleep(do[1])
            elif k == "raise":
                w.sim.count("fault", "callback raises")
                raise self.boom(cb)
            elif k == "raise_after":
                w.sim.count("fault", "callback raises")
                await asyncio.sleep(do[1])
                raise self.boom(cb)
            elif k == "cancel":
                w.sim.count("fault", "callback cancelled")
                asyncio.current_task().cancel()
                await asyncio.sleep(0)
            elif k == "cancelled":
                w.sim.count("fault", "callback cancelled")
                raise asyncio.CancelledError()
            elif k == "hang":
                w.sim.count("fault", "callback never finishes")
                await asyncio.Event().wait()
            elif k == "timeout":
                w.sim.count("fault", "callback raises")
                raise TimeoutError("callback")
            elif k == "session":
                w.sim.count("fault", "callback raises")
                raise ex.InvalidSession("callback")
            elif k == "key":
                w.sim.count("fault", "callback raises")
                raise KeyError("callback")
            elif k == "stop":
                w.sim.count("fault", "callback raises")
                raise StopAsyncIteration
            elif k == "badstr":
                w.sim.count("fault", "callback raises")
                raise BadStr()
            rec[5] = w.sim.t

        return now if do[0].startswith("now") else callback

    def boom(self, cb):
        e = Boom(f"callback failure {len(self.raised)}.")
        self.raised.append((cb["k"], e))
        return e

    def register(self, cbs):
        for i, cb in enumerate(cbs):
            if cb.get("at") is None:
                register(cb["k"], self.make(i, cb), cb.get("alt", False))

    def register_later(self, cbs, base):
        def go(i, cb):
            cb["_t"] = self.w.sim.t
            register(cb["k"], self.make(i, cb), cb.get("alt", False))

        for i, cb in enumerate(cbs):
            if cb.get("at") is not None:
                self.w.sim.at(self.w.sim.t0 + base + cb["at"], go, i, cb)


def judge_calls(w, sc, client, events, calls, timely=None, prefix=False, idle=0):
    """Compare the recorded invocations with the event frames.

    events: list of (frame index, event dict, arrival time) the client received, in order.
    prefix: the application closed the client: any prefix of the events may have been delivered."""
    order = {}
    for i, cb in enumerate(sc["cbs"]):
        exp = [(n, e, at) for n, e, at in events if e.get("k") == cb["k"]]
        got = [c for c in calls if c[0] == i and c[1] == client]
        if cb.get("at") is not None:
            t = cb.get("_t")
            if t is None:
                lo = hi = len(exp)
            else:
                # an event around the time of the registration may or may not be dispatched after it
                d = 3 + sum(b[1] for b in sc.get("blocks", ())) + 2 * (sc.get("lag") or 0) + idle
                lo = next((j for j, x in enumerate(exp) if x[2] > t - d), len(exp))
                hi = next((j for j, x in enumerate(exp) if x[2] > t + 1), len(exp))
            j = len(exp) - len(got)
            if not prefix:
                if not lo <= j <= hi:
                    j = lo if len(got) > len(exp) - lo else hi
                exp = exp[j:]
            else:
                exp = exp[lo:]
        bad = False
        for k in range(max(len(exp), len(got))):
            if k >= len(got):
                if not prefix:
                    w.viol("lost", f"the frame {exp[k][1]['f']!r} (number {exp[k][0]}) did not start callback {i} ({cb['k']}); {len(got)} of {len(exp)} calls", key=f"lost")
                bad = not prefix
                break
            if k >= len(exp):
                c = got[k]
                w.viol("extra", f"callback {i} ({cb['k']}) was started at {c[4]:.3f} for {c[2]!r} {brief_args(c[3])} by no frame; {len(got)} calls for {len(exp)} frames")
                bad = True
                break
            n, e, at = exp[k]
            c = got[k]
            d = call_diff(cb["k"], c, e)
            if d:
                w.viol("decoded", f"frame {e['f']!r} (number {n}): callback {i} ({cb['k']}) {d}")
                bad = True
                break
            if c[4] < at - 1e-6:
                w.viol("extra", f"callback {i} was started at {c[4]:.3f}, before {e['f']!r} arrived at {at:.3f}")
            if timely is not None and c[4] > at + timely:
                w.viol("late", f"callback {i} ({cb['k']}) for {e['f']!r} was started {c[4] - at:.2f} s after the frame arrived")
            order[id(c)] = n
            if cb.get("do", ["log"])[0] == "sleep" and c[5] is None:
                w.viol("aborted", f"callback {i} ({cb['k']}), which takes {cb['do'][1]} s, was started at {c[4]:.3f} and did not run to its end")
        if bad:
            return
    seq = [(order[id(c)], c) for c in calls if id(c) in order and c[1] == client]
    for (a, x), (b, y) in zip(seq, seq[1:]):
        if b < a:
            w.viol("order", f"callback {y[0]} for frame {b} was started after callback {x[0]} for frame {a}")
            return


def call_diff(kind, c, e):
    item, args = c[2], c[3]
    cls = ITEM_CLASS[kind.split(".")[0]]
    if not any(k.__name__ == cls for k in type(item).__mro__):
        return f"got an item of kind {type(item).__name__}"
    if str(item.where) != e["w"]:
        return f"got the item of {str(item.where)!r}, the frame is from {e['w']!r}"
    if not same_args(kind, args, e["a"]):
        return f"got {brief_args(args)}, the frame says {e['a']}"
    if kind.startswith("cam") and str(args[1]) != e["f"]:
        return f"got the message {args[1]}"
    return None


def brief_args(a):
    try:
        return [flat(x) for x in a]
    except Exception as e:  # noqa
        return f"<{type(e).__name__}>"


def gen_noise(rng):
    """A well-formed frame that is no event of a supported device."""
    r = rng.random()
    if r < 0.25:
        return rng.choice((own.ACK, own.NACK))
    if r < 0.5:
        who = rng.choice(("0", "3", "4", "5", "6", "8", "15", "16", "17", "22", "24", "25", "1001", "1004", "1013", "1018"))
        return rng.choice((own.normal(who, gen_what(rng), gen_where(rng)), own.dimres(who, gen_where(rng), gen_dim(rng), 1, 2)))
    if r < 0.75:
        who, wh = rng.choice((("1", gen_where(rng)), ("2", gen_where(rng)), ("18", rng.choice(EN_WHERE)), ("13", "")))
        return rng.choice((own.status(who, wh) if wh else own.dimreq(who, wh, 1), own.dimreq(who, wh, rng.choice(("1", "2", "12", "113", "0", "72#1")))))
    u = rng.choice(("9", "77", "999"))
    return rng.choice((own.normal(u, "1", "12"), own.dimres(u, "12", "1", 1, 2), f"*{u}##", "*1*1##", "*1*1*12*3*4##"))


def slowest(sc):
    """Seconds after which every callback of the scenario has run to its end."""
    return 3 + max([30] + [cb["do"][1] for cb in sc["cbs"] if cb.get("do", ["log"])[0] == "sleep"])


def gen_cbs(rng, kinds, nasty=0.3, late=0.15):
    cbs = []
    for k in kinds:
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            cb = {"k": k, "do": gen_do(rng, nasty)}
            if k.startswith(("en.", "light.status", "light.temp")) and rng.random() < 0.3:
                cb["alt"] = True
            if rng.random() < late:
                cb["at"] = rng.choice((0.5, 3.0, 8.0, 15.0))
            cbs.append(cb)
    rng.shuffle(cbs)
    return cbs


def with_net(rng, it, far=True):
    it["gap"] = rng.choice((0, 0, 0, 0, 0.01, 0.5, 2.0, 5.0) if far else (0, 0, 0, 0.01, 0.2))
    if rng.random() < 0.35:
        it["cuts"] = gen_cuts(rng, it["f"])
        if rng.random() < 0.4:
            it["delays"] = [rng.choice((0, 0, 0.01, 0.3)) for _ in range(min(len(it["cuts"]) + 1, 6))]
    return it


def send_now(w, s, items, tag):
    """Send event frames at this moment; records (index, event, arrival) of what was sent."""
    for it in items:
        if s.dead:
            return
        at = s.send_text(it["f"], it.get("cuts"), it.get("delays"))
        tag.append((len(tag), it, at - w.sim.t0))
        for at in burst(s, it):
            tag.append((len(tag), it, at - w.sim.t0))


def send_early(w, s, items, early):
    """Send frames at this moment; records (event, arrival)."""
    tag = []
    send_now(w, s, items, tag)
    early += [(it, at) for _, it, at in tag]


def send_events(w, s, items, start, tag):
    """Like send_plan; records (index, event, arrival) of what was sent."""
    t = start
    for it in items:
        t += it.get("gap", 0)
        w.sim.at(w.sim.t0 + t, send_now, w, s, [it], tag)
    return t


class Loop:
    """A task running client.loop(); records how it ends."""

    def __init__(self, w, c, cmd=None):
        self.w, self.c, self.cmd = w, c, cmd
        self.out = None
        self.start()

    def start(self):
        self.w.log("app", "loop starts")
        self.task = self.w.loop.create_task(self._run())

    async def _run(self):
        self.out = await self.w.outcome(self.c.loop() if self.cmd is None else self.c.loop(client=self.cmd), "loop")

    async def cancel(self):
        self.task.cancel()
        if await self.w.finish([self.task], 5):
            self.w.viol("loop-stuck", "the cancelled event loop did not end")


class Events(Family):
    frozen = ("a", "f", "k", "w", "cuts", "delays")


class P13(Events):
    prop = "P13"
    runs = {"quick": 12500, "thorough": 150000}
    rule = ("Cases: 1-40 event frames of every supported kind with random values, mixed with frames that are no event, cut and joined at random; "
            "1-3 callbacks per kind, fast, slow, raising, cancelled or hanging, some registered while events flow; one or two event clients; "
            "the loop cancelled and run again; non-events. Callback calls are compared one by one with the frames.")

    def gen(self, rng, i, tier):
        nc = rng.choice((1, 1, 1, 2))
        sc = {"clients": [{"plan": gen_handshake(rng), "net": gen_net(rng)} for _ in range(nc)]}
        gen_common(rng, sc)
        kinds = rng.sample(CB_ALL, rng.choice((1, 2, 3, 6, 12))) if rng.random() < 0.7 else list(CB_ALL)
        sc["cbs"] = gen_cbs(rng, kinds)
        wheres = {}
        for cl in sc["clients"]:
            fr = []
            for _ in range(rng.choice((1, 2, 4, 8, 16, 40))):
                if rng.random() < 0.2:
                    it = {"f": gen_noise(rng)}
                else:
                    k = rng.choice(kinds if rng.random() < 0.8 else CB_ALL)
                    pool = wheres.setdefault(k.split(".")[0], [])
                    it = gen_event(rng, k, rng.choice(pool) if pool and rng.random() < 0.5 else None)
                    if it["w"]:
                        pool.append(it["w"])
                fr.append(with_net(rng, it))
            gen_flood(rng, fr, cl["net"])
            cl["frames"] = long_silence(rng, fr)
            if rng.random() < 0.25:
                cl["restarts"] = [[rng.choice((0, 0.01, 0.5, 2.0, 6.0)), rng.choice((0, 0.01, 3.0))] for _ in range(rng.randrange(1, 4))]
            cl["loop_at"] = rng.choice((0, 0, 0, 1.0))
            if rng.random() < 0.2:
                cl["eager"] = rng.randrange(1, 5)       # the first frames come together with the grant of the session
            if rng.random() < 0.15:
                cl["misuse"] = [[round(rng.uniform(0, 6), 2), rng.choice(("cmd", "query", "send"))] for _ in range(rng.randrange(1, 6))]
        if rng.random() < 0.15:
            sc["blocks"] = [[round(rng.uniform(0, 12), 2), rng.choice((0.5, 3.0))]]
        return sc

    def run(self, sc):
        async def main(w):
            from pyown.items.lighting import Light

            clients, gws, tags, loops = [], [], [], []
            for k, cl in enumerate(sc["clients"]):
                gw = SimGateway(w.sim, host=f"10.3.0.{k + 1}", plans=[cl.get("plan", {})], net=cl.get("net", {}), seed=f"{sc['seed']}-{k}")
                gws.append(gw)
                tag = []
                tags.append(tag)
                if cl.get("eager"):
                    gw.on_grant = lambda s, cl=cl, tag=tag: send_now(w, s, cl["frames"][:cl["eager"]], tag)
                clients.append(await open_client(w, gw, "event"))
            r = Recorder(w, clients)
            r.register(sc["cbs"])
            base = w.sim.t
            for tag in tags:
                tag[:] = [(n, it, max(at, base)) for n, it, at in tag]
            r.register_later(sc["cbs"], base)
            end = 0

            async def drive(cl, c):
                await w.until(base + cl.get("loop_at", 0))
                lp = Loop(w, c)
                loops.append(lp)
                for on, off in cl.get("restarts", ()):
                    await asyncio.sleep(on)
                    if lp.task.done():
                        return
                    w.sim.count("fault", "event loop cancelled and run again")
                    await lp.cancel()
                    await asyncio.sleep(off)
                    lp.start()

            async def misuse(at, how, c):
                # a command on an event session is refused and costs no event
                await w.until(base + at)
                it = Light(c, "11")
                if how == "query":
                    o = await w.outcome(it.get_status().__anext__(), "misuse")
                else:
                    o = await w.outcome(it.turn_on() if how == "cmd" else c.send_message(build_message("*1*1*11##")), "misuse")
                if o.kind != "InvalidSession":
                    w.viol("misuse", f"{how} on an event session gave {o}")

            drivers = []
            for k, cl in enumerate(sc["clients"]):
                drivers += [w.loop.create_task(misuse(at, how, clients[k])) for at, how in cl.get("misuse", ())]
                end = max(end, send_events(w, gws[k].last, cl["frames"][cl.get("eager", 0):], base, tags[k]))
                drivers.append(w.loop.create_task(drive(cl, clients[k])))
            await w.until(end + 30)
            await w.finish(drivers, 30)
            for _ in range(200):
                if not any(g.last.conn.inflight or g.last.conn.rx for g in gws):
                    break
                await asyncio.sleep(1)
            await asyncio.sleep(2 + slowest(sc))
            for k, cl in enumerate(sc["clients"]):
                if loops[k].task.done():
                    w.viol("loop-ended", f"the event loop ended by itself: {loops[k].out}")
            quiet = not sc.get("lag") and not sc.get("blocks")
            for k, cl in enumerate(sc["clients"]):
                plain = quiet and not cl.get("restarts") and not cl.get("loop_at") and not cl.get("net", {}).get("recv_cap")
                judge_calls(w, sc, k, tags[k], r.calls, timely=0.5 if plain else None,
                            idle=cl.get("loop_at", 0) + sum(x[1] for x in cl.get("restarts", ())))
                w.probe("event frames", len(tags[k]))
            for c in r.calls:
                if c[1] is None:
                    w.viol("client", f"callback {c[0]} got {c[2]!r}, which belongs to no client of this run")
            w.probe("callbacks started", len(r.calls))

        return execute(sc, main)


# -- P14 -------------------------------------------------------------------------------------------
def gen_nasty(rng):
    """Well-formed frames chosen to upset a dispatcher."""
    def num():
        return rng.choice(["", "0", "1", "2", "255", "256", "00", "007", "99", "1000", str(rng.randrange(10 ** 4)), digits(rng, 30), "#", "#0", "#1#2", "1#", "1#2", "1##2"[:3]])

    def tag(*extra):
        return rng.choice([num(), num(), *extra])

    r = rng.random()
    if r < 0.3:      # an event with something broken in it
        e = gen_event(rng, rng.choice(CB_ALL))
        t = e["f"][1:-2].split("*")
        for _ in range(rng.choice((1, 1, 2))):
            j = rng.randrange(len(t))
            a = rng.random()
            if a < 0.4:
                t[j] = tag()
            elif a < 0.6 and len(t) > 1:
                del t[j]
            elif a < 0.75:
                t.insert(j, tag())
            elif a < 0.9:
                t = t + [tag() for _ in range(rng.randrange(1, 10))]
            else:
                t = t[:rng.randrange(1, len(t) + 1)]
            if not t:
                t = ["1"]
        f = "*" + "*".join(t) + "##"
    elif r < 0.5:    # supported system, odd action or address
        who = rng.choice(("1", "2", "7", "13", "18"))
        f = rng.choice((f"*{who}*{tag('1000#1', '57#1#2')}*{tag('71', '81#0', '4000')}##", f"*#{who}*{tag()}*{tag('1', '2', '12', '14', '22', '511#1', '52', '72', '250')}*{tag()}##"))
    elif r < 0.75:   # right dimension, missing or odd values
        who, wh, dims = rng.choice((("1", "12", ["1", "2", "12", "14"]), ("13", "", GW_DIMS), ("18", rng.choice(EN_WHERE), ["511", "512", "513", "514", "52", "72", "250", "71", "73", "113"])))
        d = rng.choice(dims) + rng.choice(("", "", "#", "#1", "#1#2", "#99#99", "#1#2#3"))
        f = rng.choice((own.dimres, own.dimwr))(who, wh, d, *[tag() for _ in range(rng.randrange(1, 9))])
    elif r < 0.85:
        f = gen_frame(rng)
    else:
        f = gen_noise(rng)
    body = f[:-2]
    while "##" in body:
        body = body.replace("##", "#")
    body = body.rstrip("#") or "*1"
    return body + "##"


class P14(Events):
    prop = "P14"
    runs = {"quick": 12500, "thorough": 150000}
    rule = ("Cases: 2-30 disturbing frames (broken events, odd actions, dimensions, values and addresses of every system, acknowledgements, "
            "unknown systems) and callbacks that raise, are cancelled or hang, with ordinary events in between that must still be delivered in order.")

    def gen(self, rng, i, tier):
        sc = {"plan": gen_handshake(rng), "net": gen_net(rng)}
        gen_common(rng, sc)
        kinds = rng.sample(CB_ALL, 4) if rng.random() < 0.5 else list(CB_ALL)
        sc["cbs"] = gen_cbs(rng, kinds, nasty=0.6, late=0)
        fr = []
        n = 0
        for _ in range(rng.choice((2, 4, 8, 16, 30))):
            if rng.random() < 0.65:
                it = {"f": gen_nasty(rng)}
            else:
                it = gen_event(rng, rng.choice(kinds))
                it["s"] = True
                n += 1
            fr.append(with_net(rng, it))
        for k in rng.sample(kinds, 1):
            it = gen_event(rng, k)
            it["s"] = True
            fr.append(with_net(rng, it))
        gen_flood(rng, fr, sc["net"], p=0.08)
        sc["frames"] = long_silence(rng, fr)
        sc["loop_at"] = rng.choice((0, 0, 1.0))
        if rng.random() < 0.15:
            sc["stops"] = sorted(rng.choice((0.001, 0.5, 2.0, 5.0, 20.0)) for _ in range(rng.choice((1, 1, 2, 3))))
            sc["stop_gap"] = rng.choice((0, 0, 0.01, 1.0))
        return sc

    def run(self, sc):
        async def main(w):
            gw = SimGateway(w.sim, plans=[sc.get("plan", {})], net=sc.get("net", {}), seed=sc["seed"])
            c = await open_client(w, gw, "event")
            r = Recorder(w, [c])
            r.register(sc["cbs"])
            w.sim.reports = []
            tag = []
            end = send_events(w, gw.last, sc["frames"], w.sim.t, tag)
            await asyncio.sleep(sc.get("loop_at", 0))
            lp = Loop(w, c)
            for t in sc.get("stops", ()):
                await w.until(max(w.sim.t, t))
                if lp.task.done():
                    break
                w.sim.count("fault", "event loop stopped by the application")
                await lp.cancel()
                await asyncio.sleep(sc.get("stop_gap", 0))
                lp = Loop(w, c)
            await w.until(end + 20)
            for _ in range(100):
                if not (gw.last.conn.inflight or gw.last.conn.rx):
                    break
                await asyncio.sleep(1)
            await asyncio.sleep(2 + slowest(sc))
            if lp.task.done():
                last = [e["f"] for _, e, at in tag if lp.out and at <= lp.out.end + 0.001][-3:]
                w.viol("loop-ended", f"the event loop ended with {lp.out}; the last frames before that: {last}")
            if gw.last.closed_at is not None:
                w.viol("closed", "the client closed the connection although every frame was well formed")
            # every ordinary event is a call, in order (disturbing frames may cause calls of their own)
            for i, cb in enumerate(sc["cbs"]):
                got = [x for x in r.calls if x[0] == i]
                j = 0
                for n, e, at in tag:
                    if not e.get("s") or e["k"] != cb["k"]:
                        continue
                    while j < len(got) and call_diff(cb["k"], got[j], e):
                        j += 1
                    if j >= len(got):
                        before = [x["f"] for m, x, _ in tag if m < n][-3:]
                        w.viol("lost", f"{e['f']!r} (number {n}) did not start callback {i} ({cb['k']}, {cb['do']}) in its turn; frames before it: {before}")
                        break
                    j += 1
                    w.probe("ordinary events delivered")
            # errors of callbacks do not pass silently, unless another callback of the event never ends or has an error without text
            odd = {cb["k"] for cb in sc["cbs"] if cb.get("do", ["log"])[0] in ("hang", "badstr")}
            texts = None
            for k, e in r.raised:
                if k in odd:
                    continue
                if texts is None:
                    texts = " ".join(f"{m} {' '.join(str(x) for x in (a if isinstance(a, tuple) else (a,)) if not isinstance(x, BadStr))}"
                                     for m, a, _ in w.sim.reports if not isinstance(m, BadStr))
                w.probe("errors of callbacks reported")
                if not any(x is e for _, _, x in w.sim.reports) and str(e) not in texts:
                    w.viol("silent", f"the error of a {k} callback was not logged")
                    break
            w.probe("disturbing frames", sum(not e.get("s") for _, e, _ in tag))

        return execute(sc, main)


# -- P15 -------------------------------------------------------------------------------------------
class P15(Events):
    prop = "P15"
    runs = {"quick": 12500, "thorough": 150000}
    rule = ("Cases: 0-20 events, then the connection ends at any point (also inside a frame, with a backlog, before the loop runs) by EOF, reset or "
            "close(), the loop running, blocked or not yet started; the client is opened again and the same happens, up to 3 times.")

    def gen(self, rng, i, tier):
        sc = {"rounds": [], "password": rng.choice(("12345", "00000", "1", "123456789"))}
        gen_common(rng, sc)
        kinds = rng.sample(CB_ALL, rng.choice((1, 2, 4)))
        sc["cbs"] = gen_cbs(rng, kinds, nasty=0.2, late=0)
        for _ in range(rng.choice((1, 1, 2, 3))):
            plan = gen_handshake(rng)
            if plan["auth"] != "none":
                plan["password"] = sc["password"]
            rd = {"plan": plan, "net": gen_net(rng), "frames": [], "how": rng.choice(("eof", "eof", "rst", "close"))}
            for _ in range(rng.choice((0, 1, 1, 2, 3, 5, 10, 20))):
                it = gen_event(rng, rng.choice(kinds)) if rng.random() < 0.85 else {"f": gen_noise(rng)}
                rd["frames"].append(with_net(rng, it, far=rng.random() < 0.3))
            gen_flood(rng, rd["frames"], rd["net"], 300)
            long_silence(rng, rd["frames"])
            r = rng.random()
            if r < 0.3:     # the last frame stays unfinished
                f = gen_event(rng, rng.choice(kinds))["f"]
                rd["part"] = f[:rng.randrange(1, len(f))]
            rd["loop_at"] = rng.choice((0, 0, 0, 0, 1.0, 10.0))
            if rd["frames"] and rng.random() < 0.15:
                rd["eager"] = rng.randrange(1, 4)       # frames sent together with the grant of the session
            # relative to the last frame: right behind it, before it is through, or later
            rd["end_gap"] = rng.choice((0, 0, 0, 0.001, 0.02, 0.5, 3.0, -0.01, -0.5, -2.0))
            if rng.random() < 0.2:
                rd["block"] = [rng.choice((0, 0.01, 0.5)), rng.choice((0.5, 2.0))]
            rd["twice"] = rng.random() < 0.15
            if rng.random() < 0.1:
                rd["stop_at"] = rng.choice((0, 0.01, 0.5, 3.0))         # the application stops a first loop
            if rd["how"] == "close" and rng.random() < 0.4:
                rd["in_cb"] = rng.choice((0, 0, 1, 2, 5))       # a callback closes the client
            sc["rounds"].append(rd)
        return sc

    def run(self, sc):
        async def main(w):
            plans = [rd.get("plan", {}) for rd in sc["rounds"]]
            gw = SimGateway(w.sim, plans=plans, seed=sc["seed"])
            from pyown.client import Client, SessionType

            clients = []
            r = Recorder(w, clients)
            r.register(sc["cbs"])
            c = Client(gw.host, gw.port, sc.get("password", "12345"), SessionType.EventSession)
            clients.append(c)
            for n, rd in enumerate(sc["rounds"]):
                gw.net = rd.get("net", {})
                early = []
                gw.on_grant = lambda s, rd=rd, early=early: send_early(w, s, rd["frames"][:rd.get("eager", 0)], early)
                o = await w.outcome(c.start(), "start")
                if not o.ok or len(gw.sessions) != n + 1:
                    raise Skip(f"session could not be opened: {o.kind}")
                s = gw.last
                for _ in range(400):
                    if s.granted and s.state == "open":
                        break
                    await asyncio.sleep(0.05)
                else:
                    raise Skip("session was not granted")
                await self.round(w, sc, rd, r, c, s, early)
                if w.viols:
                    return

        return execute(sc, main)

    async def round(self, w, sc, rd, r, c, s, early):
        how = rd["how"]
        first = len(r.calls)
        base = w.sim.t
        consumed0 = s.conn.consumed + len(s.conn.rx) + s.conn.inflight - sum(len(it["f"]) for it, _ in early)
        tag = []
        off = [consumed0]       # end offset of every frame sent
        sent = []
        for it, at in early:
            off.append(off[-1] + len(it["f"]))
            sent.append((len(sent), it, max(at, base), off[-1]))

        def go(it):
            if s.dead:
                return
            at = s.send_text(it["f"], it.get("cuts"), it.get("delays"))
            off.append(off[-1] + len(it["f"]))
            sent.append((len(sent), it, at - w.sim.t0, off[-1]))
            for at in burst(s, it):
                off.append(off[-1] + len(it["f"]))
                sent.append((len(sent), it, at - w.sim.t0, off[-1]))

        t = base
        for it in rd["frames"][rd.get("eager", 0):]:
            t += it.get("gap", 0)
            w.sim.at(w.sim.t0 + t, go, it)
        if rd.get("part"):
            w.sim.at(w.sim.t0 + t, lambda: None if s.dead else s.conn.send(rd["part"].encode()))
        t_end = max(base, t + rd.get("end_gap", 0))
        ended = {}
        if rd.get("block"):
            w.sim.at(w.sim.t0 + base + rd["block"][0], w.sim.block, rd["block"][1])
        close = []

        async def from_callback():
            ended["t"] = w.sim.t
            w.log("env", "end", "close in a callback")
            w.sim.count("fault", "client closed by a callback")
            o = await w.outcome(c.close(), "close in a callback")
            ended["cb"] = o
            if not o.ok:
                w.viol("close-error", f"close() in a callback ended with {o}")

        def finish():
            r.on_call = None
            if "t" in ended:
                return
            ended["t"] = w.sim.t
            w.log("env", "end", how)
            if how == "close":
                close.append(w.loop.create_task(w.outcome(c.close(), "close")))
            else:
                s.drop(how)

        if rd.get("in_cb") is not None:
            r.on_call = [rd["in_cb"], from_callback]
        w.sim.at(w.sim.t0 + t_end, finish)
        if rd.get("loop_at", 0):
            await w.until(base + rd["loop_at"])
        if rd.get("stop_at") is not None:
            w.sim.count("fault", "event loop stopped by the application")
            l0 = Loop(w, c)
            await asyncio.sleep(rd["stop_at"])
            await l0.cancel()
            if w.viols:
                return
            if not l0.out.ok and l0.out.kind not in ("cancelled", "InvalidSession"):
                w.viol("loop-error", f"the event loop the application stopped ended with {l0.out}")
                return
        lp = Loop(w, c)
        t_loop = w.sim.t
        await w.until(t_end)
        for _ in range(400):
            if "t" in ended and not s.conn.inflight and not s.conn.rx and (how != "eof" or s.conn.rx_eof):
                break
            await asyncio.sleep(0.25)
        await asyncio.sleep(0.01)
        # from here the end of the connection is visible to the client
        slack = 1.0 + (rd["block"][1] if rd.get("block") else 0) + 10 * (sc.get("lag") or 0)
        if await w.finish([lp.task], slack):
            w.viol("loop-stuck", f"{how} at {ended.get('t')}: the event loop did not return within {slack} s")
            lp.task.cancel()
            return
        if how == "close" and lp.out.kind == "InvalidSession" and t_loop >= ended["t"] - 0.001:
            pass        # run on a closed client: refused
        elif not lp.out.ok:
            w.viol("loop-error", f"after {how} the event loop ended with {lp.out}")
            return
        elif lp.out.end < ended["t"] - 1e-6:
            w.viol("loop-ended", f"the event loop returned at {lp.out.end:.3f}, before the connection ended at {ended['t']:.3f}")
            return
        await asyncio.sleep(slowest(sc))
        if "t" in ended and rd.get("in_cb") is not None and not close and "cb" not in ended:
            w.viol("close-stuck", "close() in a callback did not return")
        w.probe(f"connection ended by {how}")
        calls = r.calls[first:]
        if how == "rst":
            events = [(n, e, at) for n, e, at, o in sent if o <= s.conn.consumed]
        else:
            events = [(n, e, at) for n, e, at, o in sent]
        judge_calls(w, sc, 0, events, calls, prefix=how == "close")
        w.probe("events judged", len(events))
        if rd.get("twice"):
            o = await w.outcome(asyncio.wait_for(c.loop(), 5), "loop again")
            if not (o.ok or o.kind == "InvalidSession"):
                w.viol("loop-again", f"running the loop again after the connection ended: {o}")


# -- P16 -------------------------------------------------------------------------------------------
WHO_CLASS = {"1": "Light", "2": "Automation", "7": "Camera", "13": "Gateway", "18": "EnergyManagement"}
SYS = {"light": "1", "auto": "2", "cam": "7", "gw": "13", "en": "18"}
UNSUPPORTED = ["0", "3", "4", "5", "6", "8", "15", "16", "17", "22", "24", "25", "1001", "1004", "1013", "1018"]


class P16(Events):
    prop = "P16"
    runs = {"quick": 10000, "thorough": 120000}
    rule = ("Cases: an event client with or without a designated command client (same or another gateway), 1-20 item lookups on either client "
            "interleaved with 1-25 events whose callbacks issue commands on the item they get; the event client is closed and opened again.")

    def gen(self, rng, i, tier):
        sc = {"plan": gen_handshake(rng), "net": gen_net(rng), "cmd": rng.choice(("same", "other", "other", None)), "plan2": gen_handshake(rng), "net2": gen_net(rng)}
        gen_common(rng, sc)
        addr = {"1": rng.sample(["11", "12", "25", "0110", "#5", "12#4#01", "1", "0"], 4), "2": rng.sample(["11", "12", "25", "0110", "#5", "12#4#01"], 3),
                "7": ["4000", "4001", "11"], "13": [""], "18": rng.sample(EN_WHERE, 4)}
        if rng.random() < 0.3:
            # addresses that are easily taken for each other
            alike = ["1", "11", "0011", "0111", "1011", "#1", "#11", "11#4#01", "11#4#02", "0110", "00", "0"]
            addr.update({"1": rng.sample(alike, 6), "2": rng.sample(alike, 6), "18": rng.sample(["11", "15", "51", "1115", "71#0", "711#0", "72#0"], 4)})
        n = rng.choice((1, 3, 8, 20))
        look = []
        for _ in range(n):
            who = rng.choice(sorted(addr)) if rng.random() < 0.9 else rng.choice(UNSUPPORTED)
            look.append({"at": rng.choice((0, 0, 0.01, 0.5, 2.0, 5.0, 9.0)) if rng.random() < 0.7 else round(rng.uniform(0, 12), 2),
                         "on": rng.choice(("event", "event", "cmd") * 4 + ("late",)), "who": who, "where": rng.choice(addr.get(who, ["11"])),
                         "bind": rng.choice(("cmd", "cmd", "event"))})
        look.sort(key=lambda x: x["at"])
        sc["look"] = look
        kinds = ["light.status", "light.luminosity", "auto.status", "cam.status", "gw.19", "en.113", "en.511"]
        fr = []
        for _ in range(rng.choice((1, 3, 8, 25))):
            k = rng.choice(kinds)
            fr.append(with_net(rng, gen_event(rng, k, rng.choice(addr[SYS[k.split('.')[0]]]) or None)))
        sc["frames"] = fr
        sc["cbs"] = [{"k": k, "do": rng.choice((["log"], ["act"], ["act_later", 0.5], ["act"]))} for k in kinds if rng.random() < 0.8] or [{"k": "light.status", "do": ["act"]}]
        sc["reopen"] = rng.random() < 0.25
        sc["forget"] = rng.random() < 0.35
        if rng.random() < 0.06:
            # a large installation: many addresses are looked up in one go
            sc["bulk"] = {"at": rng.choice((0, 1.0, 6.0)), "on": rng.choice(("event", "cmd")), "who": rng.choice(("1", "2", "18")), "n": rng.choice((40, 70, 140, 270, 530, 1100))}
        return sc

    def run(self, sc):
        import pyown.items as pi  # noqa: F401
        from pyown.tags import Where, Who

        async def main(w):
            gw = SimGateway(w.sim, host="10.4.0.1", plans=[sc["plan"]], net=sc["net"], seed=sc["seed"])
            received = []       # commands the command session got

            def answer(s_, f):
                received.append((s_, f))
                if f.startswith("*#"):
                    s_.send_text(own.NACK)
                else:
                    s_.send_text(own.ACK)

            evc = await open_client(w, gw, "event")
            ev_s = gw.last
            if sc["cmd"] == "other":
                gw2 = SimGateway(w.sim, host="10.4.0.2", plans=[sc["plan2"]], net=sc["net2"], seed=f"{sc['seed']}-2")
                cmdc = await open_client(w, gw2, "cmd", sc["plan2"].get("password", "12345"))
                cs = gw2.last
            else:
                gw2 = gw
                cmdc = await open_client(w, gw, "cmd", sc["plan"].get("password", "12345"))
                cs = gw.last
            cs.on_frame = answer
            designated = cmdc if sc["cmd"] else evc
            clients = {"event": evc, "cmd": cmdc}
            names = {id(evc): "event", id(cmdc): "cmd"}
            known = {}          # (client, who, where) -> (item, clients it may be bound to)
            seen = []           # every item ever seen, kept alive so that identities stay distinct
            marks = {}          # in the other runs the application keeps no item but leaves a note on it

            def same(key, item):
                if not sc.get("forget"):
                    return known[key][0] is item
                return getattr(item, "sim_note", None) == marks[key]

            def check(owner, who, where, item, binders, how):
                key = (owner, who, where)
                if sc.get("forget"):
                    if key not in known:
                        try:
                            if getattr(item, "sim_note", None) is not None:
                                w.viol("identity", f"{how}: the item of {item.sim_note} was returned for {key}")
                            item.sim_note = marks[key] = list(key)
                        except AttributeError:
                            raise Skip("items take no attributes")
                else:
                    seen.append(item)
                cls = WHO_CLASS[who]
                if not any(k.__name__ == cls for k in type(item).__mro__):
                    w.viol("kind", f"{how}: the item of system {who} is a {type(item).__name__}")
                if str(item.where) != where:
                    w.viol("address", f"{how}: the item of {where!r} has the address {str(item.where)!r}")
                if key in known:
                    if not same(key, item):
                        w.viol("identity", f"{how}: another item than before for system {who}, address {where!r} of the {owner} client")
                    return
                for k, (x, _) in known.items():
                    if x is item and x is not None and k != key:
                        w.viol("identity", f"{how}: the item of {k} was returned for {key}")
                if item.client not in binders:
                    w.viol("bound", f"{how}: the item of system {who}, address {where!r} is bound to the {names.get(id(item.client), '?')} client, "
                                    f"not to {[names.get(id(b)) for b in binders]}")
                known[key] = (None if sc.get("forget") else item, item.client)

            acts = []           # commands issued from callbacks: (item, expected frame, task)
            arrived = {}        # devices whose events may have been dispatched

            def make(cb):
                do = cb["do"]

                async def act(item, who, where):
                    if who in ("1", "2"):
                        name, what = ("turn_on", "1") if who == "1" else ("up", "1")
                        f = own.normal(who, what, where)
                    elif who == "7":
                        name, f = "receive_video", own.normal("7", "0", where)
                    elif who == "18":
                        name, f = "force_actuator_off", own.normal("18", "74", where)
                    else:
                        return
                    w.probe("commands from callbacks")
                    o = await w.outcome(getattr(item, name)(), f"cb {name}")
                    acts.append((who, where, f, o, item.client))

                async def callback(item, *args):
                    who = SYS[cb["k"].split(".")[0]]
                    where = str(item.where)
                    w.log("cb", cb["k"], where)
                    w.ops += 1
                    # bound to what an earlier lookup said, else to the client designated for the loop
                    check("event", who, where, item, pending.get((who, where), []) + [designated], f"callback {cb['k']}")
                    if do[0] == "act":
                        await act(item, who, where)
                    elif do[0] == "act_later":
                        await asyncio.sleep(do[1])
                        await act(item, who, where)

                return callback

            pending = {}
            for cb in sc["cbs"]:
                register(cb["k"], make(cb))
            base = w.sim.t
            send_events(w, ev_s, sc["frames"], base, [])
            lp = Loop(w, evc, cmdc if sc["cmd"] else None)
            if sc.get("bulk"):
                b = sc["bulk"]

                def many(b=b):
                    w.log("app", "get_item", "bulk", b["who"], b["n"])
                    for j in range(b["n"]):
                        where = str(60000 + j)
                        check(b["on"], b["who"], where, clients[b["on"]].get_item(Who(b["who"]), Where(where), client=cmdc), [cmdc], "get_item")

                w.sim.at(w.sim.t0 + base + b["at"], many)
            for lk in sc["look"]:
                await w.until(base + lk["at"])
                if lk["on"] not in clients:
                    # a client created when others have items; it need not be open to give items
                    clients[lk["on"]] = make_client(gw2, "cmd", "12345")
                    names[id(clients[lk["on"]])] = lk["on"]
                c = clients[lk["on"]]
                who, where = lk["who"], lk["where"]
                w.log("app", "get_item", lk["on"], who, where)
                w.ops += 1
                try:
                    it = c.get_item(Who(who), Where(where), client=clients[lk["bind"]])
                except KeyError:
                    if who in WHO_CLASS:
                        w.viol("refused", f"get_item({who}, {where!r}) raised KeyError")
                    continue
                except Exception as e:  # noqa
                    w.viol("refused", f"get_item({who}, {where!r}) raised {type(e).__name__}: {e}")
                    continue
                if who not in WHO_CLASS:
                    w.viol("unsupported", f"get_item({who}, {where!r}) returned {it!r} instead of raising KeyError")
                    continue
                # the loop may have declared the item for an event that started no callback
                maybe = [designated] if lk["on"] == "event" and any(e["w"] == where and SYS[e["k"].split(".")[0]] == who for e in sc["frames"]) else []
                check(lk["on"], who, where, it, [clients[lk["bind"]]] + maybe, "get_item")
            end = base + sum(x.get("gap", 0) for x in sc["frames"])
            await w.until(end + 20)
            if sc.get("reopen"):
                await w.outcome(evc.close(), "close")
                o = await w.outcome(evc.start(), "start")
                if not o.ok:
                    raise Skip("reopening failed")
                s2 = gw.last
                for _ in range(100):
                    if s2.granted and s2.state == "open":
                        break
                    await asyncio.sleep(0.05)
                lp = Loop(w, evc, cmdc if sc["cmd"] else None)
                send_events(w, s2, sc["frames"], w.sim.t, [])
                await w.until(w.sim.t + sum(x.get("gap", 0) for x in sc["frames"]) + 20)
            for _ in range(200):
                if not any(x.conn.inflight or x.conn.rx for g in {gw, gw2} for x in g.sessions):
                    break
                await asyncio.sleep(1)
            await asyncio.sleep(10)
            # lookups after the fact return the very items the callbacks got
            for (owner, who, where), (item, _) in list(known.items()):
                if not same((owner, who, where), clients[owner].get_item(Who(who), Where(where), client=evc)):
                    w.viol("identity", f"a later lookup of system {who}, address {where!r} returned another item")
            # commands from callbacks
            want = {}
            for who, where, f, o, cl in acts:
                bound = known[("event", who, where)][1]
                if cl is not bound:
                    w.viol("bound", f"the item of {who} {where!r} changed its client")
                if bound is cmdc:
                    want[f] = want.get(f, 0) + 1
                    if not o.ok:
                        w.viol("command", f"the command {f} from a callback ended with {o}")
                elif o.kind != "InvalidSession":
                    w.viol("command", f"the command {f} on an item of the event client ended with {o}")
            got = {}
            for s_, f in received:
                got[f] = got.get(f, 0) + 1
            if got != want:
                w.viol("command", f"commands issued from callbacks: {want}; the command session received {got}")
            for s_ in gw.sessions:
                if s_ is not cs and s_.kind == "1" and len(s_.frames) > s_.after:
                    w.viol("command", f"the event session received {s_.frames[s_.after:]}")
            w.probe("items checked", len(known))

        return execute(sc, main)
