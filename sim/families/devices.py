"""P10 lights, shutters, cameras; P11 gateway clock and identity; P12 energy; P20 default periods.

The reference home decodes every frame the gateway receives as docs/original defines it, keeps the
state of every device and answers from that state.  Each call of the library is described by the
action it has to cause (semantic, not a frame) and by the reading it has to return.
"""
import asyncio
import datetime as _dt
import random

from .. import env, own
from .common import *  # noqa
from .common import Family

TOL = 0.4


# -- reference: lighting, automation, camera -------------------------------------------------------
def members(where, points, groups):
    """Devices addressed by a lighting/automation WHERE."""
    parts = where.split("#")
    bus = ""
    if len(parts) >= 3 and parts[-2] == "4":
        bus, parts = f"#4#{parts[-1]}", parts[:-2]
    body = "#".join(parts)
    mine = [p for p in points if (p.split("#", 1)[1] if "#" in p else "") == bus[1:]]
    if body == "0":
        return mine if bus else list(points)
    if body.startswith("#"):
        return [p for p in mine if p in groups.get(body[1:], ())]
    if body in ("1", "2", "3", "4", "5", "6", "7", "8", "9", "00", "100"):
        return [p for p in mine if area(p.split("#")[0]) == body]
    return [p for p in mine if p == where]


def area(apl):
    if len(apl) == 2:
        return apl[0]
    a = apl[:2]
    return {"00": "00", "10": "100"}.get(a) or str(int(a))


def decode_light(what):
    w = what.split("#")
    n, par = int(w[0]), w[1:]
    if par == [""] or any(p == "" for p in par):
        return None
    par = [int(p) for p in par]
    if n in (0, 1) and len(par) <= 1:
        return ("switch", bool(n), par[0] if par else None)
    if par and n not in (30, 31):
        return None
    if 2 <= n <= 10:
        return ("level", n * 10)
    if 11 <= n <= 15:
        return ("timed", (n - 10) * 60)
    if n in (16, 17, 18):
        return ("timed", {16: 900, 17: 30, 18: 0.5}[n])
    if 20 <= n <= 29:
        return ("blink", (n - 19) * 0.5)
    if n in (30, 31) and len(par) <= 2:
        return ("step", "up" if n == 30 else "down", par[0] if par else 1, par[1] if len(par) > 1 else None)
    return None


CAM = {9: "free", 120: "zoom+", 121: "zoom-", 130: "x+", 131: "x-", 140: "y+", 141: "y-", 150: "luminosity+", 151: "luminosity-",
       160: "contrast+", 161: "contrast-", 170: "color+", 171: "color-", 180: "quality+", 181: "quality-"}


class Home:
    def __init__(self, sc):
        self.groups = {k: list(v) for k, v in sc.get("groups", {}).items()}
        self.dimmers = sc.get("dimmers", True)
        self.dev = {}
        for p, s in sc.get("devices", {}).items():
            self.dev[p] = dict(s)
        self.shut = dict(sc.get("shutters", {}))
        self.cams = []

    # decode(frame) -> (key, action) or None
    def decode(self, f):
        t = f[1:-2].split("*")
        try:
            if t[0] == "7":
                if len(t) == 3 and t[1] == "0" and t[2].isdigit() and 4000 <= int(t[2]) <= 5000:
                    return ("7", t[2]), ("video",)
                if len(t) == 2 or (len(t) == 3 and t[2] == "" and t[1] == "9"):
                    n = int(t[1])
                    if n in CAM:
                        return ("7", ""), ("camera", CAM[n])
                    if 311 <= n <= 344 and n // 10 % 10 in (1, 2, 3, 4) and n % 10 in (1, 2, 3, 4):
                        return ("7", ""), ("dial", n // 10 % 10, n % 10)
                return None
            kind, d = own.classify(f)
            if d.get("who") not in ("1", "2"):
                return None
            key = (d["who"], d["where"])
            if kind == "STATUS REQUEST":
                return key, ("status",)
            if d["who"] == "2":
                if kind == "NORMAL" and d["what"] in ("0", "1", "2"):
                    return key, ("move", {"0": "stop", "1": "up", "2": "down"}[d["what"]])
                return None
            if kind == "NORMAL":
                a = decode_light(d["what"])
                return (key, a) if a else None
            if kind == "DIMENSION REQUEST" and d["dimension"] in ("1", "2", "8", "12", "14"):
                return key, ("get", int(d["dimension"]))
            if kind == "DIMENSION WRITING":
                v = [int(x) for x in d["values"]]
                if d["dimension"] == "1" and len(v) == 2:
                    return key, ("bright", v[0], v[1])
                if d["dimension"] == "2" and len(v) == 3 and max(v[1:]) < 60:
                    return key, ("tempo", *v)
                if d["dimension"] == "12" and len(v) == 3:
                    return key, ("hsv", *v)
                if d["dimension"] == "14" and len(v) == 1:
                    return key, ("white", v[0])
        except (ValueError, IndexError):
            pass
        return None

    def apply(self, key, a):
        """Change the state; returns (answer frames without the final acknowledgement, expected result)."""
        who, where = key
        if who == "7":
            self.cams.append((where, a))
            return [], None
        if who == "2":
            ms = members(where, sorted(self.shut), self.groups)
            if a[0] == "status":
                return [own.normal(2, {"stop": 0, "up": 1, "down": 2}[self.shut[m]], m) for m in ms], [(m, {"stop": "0", "up": "1", "down": "2"}[self.shut[m]]) for m in ms]
            for m in ms:
                self.shut[m] = a[1]
            return [], None
        ms = members(where, sorted(self.dev), self.groups)
        if a[0] == "status":
            fr, lit, dim = [], [], []
            for m in ms:
                s = self.dev[m]
                n = 0 if not s["on"] else (max(2, min(10, round(s["level"] / 10))) if self.dimmers else 1)
                fr.append(own.normal(1, n, m))
                lit.append((m, bool(n)))
                dim.append((m, n * 10))
            return fr, {"light": lit, "dimmer": dim}
        if a[0] == "get":
            name = {1: "bright", 2: "tempo", 8: "work", 12: "hsv", 14: "white"}[a[1]]
            vals = [(m, self.dev[m][name] if isinstance(self.dev[m][name], (list, tuple)) else [self.dev[m][name]]) for m in ms]
            return [own.dimres(1, m, a[1], *v) for m, v in vals], [(m, *v) for m, v in vals]
        for m in ms:
            s = self.dev[m]
            if a[0] == "switch":
                s["on"] = a[1]
            elif a[0] == "level":
                s["on"], s["level"] = True, a[1]
            elif a[0] in ("timed", "blink"):
                s["on"] = True
            elif a[0] == "step":
                s["level"] = max(10, min(100, s["level"] + (a[2] if a[1] == "up" else -a[2])))
            elif a[0] == "bright":
                s["bright"], s["on"] = [a[1], a[2]], a[1] > 100
            elif a[0] == "tempo":
                s["tempo"], s["on"] = list(a[1:]), True
            elif a[0] == "hsv":
                s["hsv"] = list(a[1:])
            elif a[0] == "white":
                s["white"] = a[1]
        return [], None


# -- reference: gateway ----------------------------------------------------------------------------
class GwModel:
    def __init__(self, sc):
        self.g = {k: list(v) for k, v in sc["gateway"].items()}     # dimension -> values as the documents write them

    def decode(self, f):
        kind, d = own.classify(f)
        if d.get("who") != "13" or d.get("where") != "":
            return None
        if kind == "DIMENSION REQUEST" and d["dimension"] in self.g:
            return ("13", ""), ("get", d["dimension"])
        if kind == "DIMENSION WRITING" and d["dimension"] in ("0", "1", "22"):
            v = self.parse(d["dimension"], d["values"])
            return (("13", ""), ("set", d["dimension"], *v)) if v else None
        return None

    @staticmethod
    def parse(dim, v):
        """Values of a written time/date, or None if they are not what the documents define."""
        def num(x, lo, hi, n=2):
            return len(x) == n and x.isdigit() and lo <= int(x) <= hi

        def time(v):
            ok = num(v[0], 0, 23) and num(v[1], 0, 59) and num(v[2], 0, 59) and len(v[3]) == 3 and v[3].isdigit() and v[3][0] in "01"
            return ok and (int(v[0]), int(v[1]), int(v[2]), int(v[3][1:]) * (-1 if v[3][0] == "1" else 1))

        def date(v):
            if not (num(v[0], 0, 6) and num(v[1], 1, 31) and num(v[2], 1, 12) and v[3].isdigit() and len(v[3]) == 4):
                return None
            try:
                x = env.real_date(int(v[3]), int(v[2]), int(v[1]))
            except ValueError:
                return None
            return (x.year, x.month, x.day) if x.isoweekday() % 7 == int(v[0]) else None

        if dim == "0" and len(v) == 4:
            return time(v) or None
        if dim == "1" and len(v) == 4:
            return date(v) or None
        if dim == "22" and len(v) == 8:
            t, d = time(v[:4]), date(v[4:])
            return (*d, *t) if t and d else None
        return None

    def apply(self, key, a):
        if a[0] == "get":
            return [own.dimres(13, "", a[1], *self.g[a[1]])], self.g[a[1]]
        t = lambda h, m, s, z: [f"{h:02d}", f"{m:02d}", f"{s:02d}", f"{'1' if z < 0 else '0'}{abs(z):02d}"]
        d = lambda y, mo, dd: [f"{env.real_date(y, mo, dd).isoweekday() % 7:02d}", f"{dd:02d}", f"{mo:02d}", str(y)]
        if a[1] == "0":
            self.g["0"] = t(*a[2:])
        elif a[1] == "1":
            self.g["1"] = d(*a[2:])
        else:
            self.g["22"] = t(*a[5:]) + d(*a[2:5])
        return [], None


# -- reference: energy -----------------------------------------------------------------------------
class Energy:
    def __init__(self, sc):
        self.m = sc["meters"]           # where -> readings
        self.bits = {}

    def decode(self, f):
        kind, d = own.classify(f)
        if d.get("who") != "18":
            return None
        key = ("18", d["where"])
        try:
            if kind == "NORMAL":
                w = d["what"].split("#")
                n, p = w[0], [int(x) for x in w[1:]]
                if n in ("26", "27") and not p:
                    return key, ("autoreset", n == "26")
                if n == "57" and len(p) == 2:
                    return key, ("daily", p[0], p[1])
                if n in ("58", "59", "510") and len(p) == 1:
                    return key, ({"58": "average", "59": "thisyear", "510": "lastyear"}[n], p[0])
                if n == "71" and not p:
                    return key, ("enable",)
                if n == "73" and len(p) <= 1:
                    return key, ("force", p[0] if p else None)
                if n == "74" and not p:
                    return key, ("endforce",)
                if n == "75" and len(p) == 1:
                    return key, ("reset", p[0])
            if kind == "DIMENSION REQUEST":
                w = d["dimension"].split("#")
                return key, ("get", w[0], *[int(x) for x in w[1:]])
            if kind == "DIMENSION WRITING":
                w = d["dimension"].split("#")
                if w[0] == "1200" and len(w) == 2 and len(d["values"]) == 1:
                    return key, ("auto", int(w[1]), int(d["values"][0]))
        except ValueError:
            pass
        return None

    def apply(self, key, a):
        m = self.m.get(key[1])
        if m is None:
            return None, None
        if a[0] != "get":
            return [], None
        dim, par = a[1], a[2:]
        full = "#".join([dim, *map(str, par)])
        if dim in ("113", "51", "53", "54", "73") and not par:
            return [own.dimres(18, key[1], dim, m[dim])], m[dim]
        if dim == "52" and len(par) == 2:
            v = (m["seed"] * 31 + par[0] * 12 + par[1]) % 99991
            return [own.dimres(18, key[1], full, v)], v
        if dim == "71" and not par:
            return [own.dimres(18, key[1], dim, *m["71"])], m["71"]
        if dim == "72" and len(par) == 1 and par[0] in (1, 2):
            v = m["72"][par[0] - 1]
            return [own.dimres(18, key[1], full, *v)], v
        if dim == "250" and not par:
            b = m["250"]        # b13 .. b1
            fr = [own.dimres(18, key[1], 250, b)]
            if m.get("bits", True):
                fr += [own.dimres(18, key[1], 251 + i, b[12 - i]) for i in range(13)]
            return fr, b
        if dim.isdigit() and 251 <= int(dim) <= 263 and not par:
            return [own.dimres(18, key[1], dim, m["250"][12 - (int(dim) - 251)])], (int(dim) - 251, m["250"][12 - (int(dim) - 251)])
        return None, None


# -- calls -----------------------------------------------------------------------------------------
def light_calls():
    mins = {"turn_on_1_min": 60, "turn_on_2_min": 120, "turn_on_3_min": 180, "turn_on_4_min": 240, "turn_on_5_min": 300,
            "turn_on_15_min": 900, "turn_on_30_min": 1800, "turn_on_0_5_sec": 0.5}
    c = {}
    for n, s in mins.items():
        c[n] = ("both", lambda a, s=s: ("timed", s))
    c["turn_on"] = ("both", lambda a: ("switch", True, a[0] if a else None))
    c["turn_off"] = ("both", lambda a: ("switch", False, a[0] if a else None))
    for i in range(1, 11):
        c[f"blink_{i // 2}_{'5' if i % 2 else '0'}_sec"] = ("light", lambda a, i=i: ("blink", i * 0.5))
    for p in range(20, 101, 10):
        c[f"set_{p}_percent"] = ("dimmer", lambda a, p=p: ("level", p))
    c["up_percent"] = ("dimmer", lambda a: ("step", "up", a[0] if a and a[0] is not None else 1, a[1] if len(a) > 1 else None))
    c["down_percent"] = ("dimmer", lambda a: ("step", "down", a[0] if a and a[0] is not None else 1, a[1] if len(a) > 1 else None))
    c["set_brightness_with_speed"] = ("dimmer", lambda a: ("bright", *a))
    c["set_hsv"] = ("dimmer", lambda a: ("hsv", *a))
    c["set_white_temperature"] = ("dimmer", lambda a: ("white", *a))
    c["temporization_command"] = ("both", lambda a: ("tempo", *a))
    c["get_status"] = ("both", lambda a: ("status",))
    c["temporization_request"] = ("both", lambda a: ("get", 2))
    c["request_working_time_lamp"] = ("both", lambda a: ("get", 8))
    c["request_current_brightness_speed"] = ("dimmer", lambda a: ("get", 1))
    c["request_current_hsv"] = ("dimmer", lambda a: ("get", 12))
    c["request_current_white_temperature"] = ("dimmer", lambda a: ("get", 14))
    return c


LIGHT = light_calls()
CAMERA = {"free_resources": "free", "zoom_in": "zoom+", "zoom_out": "zoom-", "increase_x_coordinate": "x+", "decrease_x_coordinate": "x-",
          "increase_y_coordinate": "y+", "decrease_y_coordinate": "y-", "increase_luminosity": "luminosity+",
          "decrease_luminosity": "luminosity-", "increase_contrast": "contrast+", "decrease_contrast": "contrast-",
          "increase_color": "color+", "decrease_color": "color-", "increase_quality": "quality+", "decrease_quality": "quality-"}
QUERY = {"get_status", "temporization_request", "request_working_time_lamp", "request_current_brightness_speed", "request_current_hsv",
         "request_current_white_temperature"}


WITH_ARGS = ["turn_on", "turn_off", "up_percent", "down_percent", "set_brightness_with_speed", "set_hsv", "set_white_temperature", "temporization_command"]


def speed(r):
    return r.choice((0, 1, 42, 99, 100, 101, 254, 255, r.randrange(256)))


def light_args(r, name):
    """(arguments, valid?)"""
    bad = r.random() < 0.3
    if name in ("turn_on", "turn_off"):
        if bad:
            return [r.choice((-1, 256, 1000, -255))], False
        return ([speed(r)], True) if r.random() < 0.6 else ([], True)
    if name in ("up_percent", "down_percent"):
        if bad:
            return r.choice(([-1], [101], [5, -1], [5, 256], [255, 3], [None, 256], [101, 0], [-1, 0])), False
        v = r.choice((0, 1, 2, 10, 50, 99, 100, r.randrange(1, 101)))
        return r.choice(([], [v], [v, speed(r)], [v, speed(r)], [None, speed(r)])), True
    if name == "set_brightness_with_speed":
        return [r.choice((100, 101, 150, 199, 200, r.randrange(100, 201))), speed(r)], True
    if name == "set_hsv":
        if bad:
            return r.choice(([360, 0, 0], [-1, 0, 0], [0, 101, 0], [0, -1, 0], [0, 0, 101], [0, 0, -1], [100, 100, 359], [361, 50, 50])), False
        return [r.choice((0, 1, 101, 359, r.randrange(360))), r.choice((0, 1, 100, r.randrange(101))), r.choice((0, 99, 100, r.randrange(101)))], True
    if name == "set_white_temperature":
        if bad:
            return [r.choice((0, -1, 65535, 65536, 100000))], False
        return [r.choice((1, 2, 153, 500, 65533, 65534, r.randrange(1, 65535)))], True
    if name == "temporization_command":
        if bad:
            return r.choice(([0, 60, 0], [0, 0, 60], [0, 61, 59], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 99, 1], [256, 0, 0], [1000, 30, 5])), False
        return [r.randrange(24), r.choice((0, 1, 59, r.randrange(60))), r.choice((0, 1, 59, r.randrange(60)))], True
    return [], True


class Devices(Family):
    """Runs the calls of a scenario against the reference model of the subclass."""

    frozen = ("gateway", "v", "a", "meters", "devices", "shutters", "item", "m", "dim", "valid", "dimmers", "groups")

    def model(self, sc):
        raise NotImplementedError

    def run(self, sc):
        async def main(w):
            await self.main(w, sc)
        return execute(sc, main, wall_jumps=sc.get("wall_jumps") and {int(k): v for k, v in sc["wall_jumps"].items()},
                       wall0=sc.get("wall0", 1_700_000_000.0), tick=sc.get("tick", 0.0))

    async def main(self, w, sc):
        gw = SimGateway(w.sim, plans=[sc.get("plan", {})], net=sc.get("net", {}), seed=sc["seed"])
        model = self.model(sc)
        clients = []
        for i in range(sc.get("clients", 1)):
            clients.append(await open_client(w, gw, "cmd"))
        got = []        # [tx time, key, action, frame, answered]
        refuse = sc.get("refuse", [])
        stats = {"n": 0}

        def tx_time(s, f):
            # time the first byte of this frame was accepted by the network
            # frames are handled one by one while the reader works: find the end of this one
            at = bytes(s.raw).find(f.encode("latin-1"), s.__dict__.get("_scan", s.raw_after))
            s._scan = at + len(f)
            for t, off, ln, *_ in s.conn.tx_log:
                if off <= at < off + ln:
                    return t
            return w.sim.t

        def on_frame(s, f):
            n = stats["n"] = stats["n"] + 1
            t = tx_time(s, f)
            d = model.decode(f)
            if d is None:
                got.append([t, None, None, f, None, s.conn.index])
                w.viol("undefined", f"the gateway received {f!r}, which the documents do not define")
                s.send_text(own.NACK)
                return
            key, action = d
            rec = [t, key, action, f, None, s.conn.index]
            got.append(rec)
            if n - 1 in refuse:
                rec[4] = "refused"
                w.sim.count("fault", "gateway refuses the request")
                s.send_text(own.NACK)
                return
            frames, exp = model.apply(key, action)
            if frames is None:
                rec[4] = "refused"
                s.send_text(own.NACK)
                return
            rec[4] = exp
            for x in frames:
                s.send_text(x)
            s.send_text(own.ACK)

        gw.on_frame = on_frame
        for s in gw.sessions:
            s.on_frame = on_frame
        items = {}
        done = []       # (task no, op, outcome, result)

        def item(c, spec):
            cls, where = spec[0], spec[1]
            k = (id(c), cls, where)
            if k not in items:
                items[k] = make_item(c, cls, where, spec[2] if len(spec) > 2 else "str")
            return items[k]

        async def call(c, o):
            m = getattr(item(c, o["item"]), o["m"])
            r = m(*self.args(o), **self.kw(o))
            if hasattr(r, "__aiter__"):
                return [x async for x in r]
            return await r

        async def task(i, t):
            await asyncio.sleep(t.get("start", 0))
            c = clients[t.get("client", 0) % len(clients)]
            for o in t["ops"]:
                if o.get("gap"):
                    await asyncio.sleep(o["gap"])
                out = await w.spawn(call(c, o), f"{o['item'][0]}({o['item'][1]}).{o['m']}({o.get('a', '')})",
                                    w.when(o))
                done.append((i, o, out))
                if o.get("cancel") is not None:
                    # the answer of an abandoned call may still be under way (P08, P09 judge what it does)
                    await asyncio.sleep(4)

        total = sum(len(t["ops"]) for t in sc["tasks"])
        pend = await w.finish([w.loop.create_task(task(i, t)) for i, t in enumerate(sc["tasks"])], 60 + total * 12)
        if pend:
            w.viol("hang", "calls answered by the gateway did not finish")
            return
        await asyncio.sleep(3)
        self.judge(w, sc, done, got)

    def args(self, o):
        return o.get("a", [])

    def kw(self, o):
        return {}

    def key(self, o):
        raise NotImplementedError

    def judge(self, w, sc, done, got):
        queue = {}
        for r in got:
            if r[1] is not None:
                queue.setdefault(r[1], []).append(r)
        seen = {}
        for i, o, out in done:
            k = self.key(o)
            q = queue.setdefault(k, [])
            want = self.action(o)
            name = f"{o['item'][0]}({o['item'][1]}).{o['m']}({', '.join(map(str, self.args(o)))})"
            if not o.get("valid", True):
                if out.ok:
                    w.viol("accepted", f"{name} was accepted although an argument is outside the documented range")
                elif out.kind in ("timeout", "ResponseError", "cancelled"):
                    w.viol("accepted", f"{name}: argument outside the documented range, not rejected before sending: {out}")
                else:
                    w.probe("invalid arguments rejected")
                continue
            if out.kind == "cancelled":
                if o.get("cancel") is None:
                    w.viol("error", f"{name} was cancelled by nobody")
                if q and q[0][0] <= out.end + 0.5:
                    r = q.pop(0)
                    if r[2] != want:
                        self.mismatch(w, o, name, want, r)
                continue
            if not q:
                w.viol("not-sent", f"{name} ended with {out} but no request for {k[1] or k[0]!r} reached the gateway")
                continue
            r = q.pop(0)
            if r[2] != want:
                self.mismatch(w, o, name, want, r)
                continue
            if out.kind == "timeout":
                # the frames of a cancelled query can be answered late and are then discarded: never a timeout
                w.viol("error", f"{name} timed out although the gateway answered")
                continue
            if r[4] == "refused":
                if out.ok:
                    w.viol("refused", f"{name} returned {out} although the gateway refused it")
                w.probe("refused")
                continue
            if not out.ok:
                w.viol("error", f"{name} ended with {out} although the gateway accepted it: {r[3]}")
                continue
            try:
                self.result(w, o, name, out.value, r)
            except (AttributeError, TypeError, ValueError, KeyError, IndexError) as e:
                w.viol("reading", f"{name} returned {norm(out.value)!r}, which is no such reading ({type(e).__name__}: {e})")
            w.probe("calls judged")
        for k, q in queue.items():
            for r in q:
                w.viol("unasked", f"the gateway received {r[3]!r} at {r[0]:.3f}, which no call asked for")

    def mismatch(self, w, o, name, want, r):
        w.viol("wrong-action", f"{name} must cause {want}, the gateway received {r[3]!r}, which is {r[2]}")

    def result(self, w, o, name, value, r):
        pass


def make_item(c, cls, where, how="str"):
    from pyown.items.automation import Automation
    from pyown.items.camera import Camera
    from pyown.items.energy import EnergyManagement, StopGo
    from pyown.items.gateway import Gateway
    from pyown.items.lighting import Dimmer, Light
    from pyown.tags import Where, Who

    cl = {"Light": Light, "Dimmer": Dimmer, "Automation": Automation, "Camera": Camera, "Gateway": Gateway, "Energy": EnergyManagement,
          "StopGo": StopGo}[cls]
    if cls == "Gateway":
        return cl(c)
    if how == "get" and cls in ("Light", "Automation", "Camera", "Energy"):
        who = {"Light": Who.LIGHTING, "Automation": Who.AUTOMATION, "Camera": Who.VIDEO_DOOR_ENTRY, "Energy": Who.ENERGY_MANAGEMENT}[cls]
        return c.get_item(who, Where(where), client=c)
    return cl(c, where if how == "str" else Where(where))


def norm(v):
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    if v is None or isinstance(v, bool) or type(v) in (int, float):
        return v
    return str(v)


POINTS = ["11", "12", "19", "25", "37", "48", "55", "91", "99", "0001", "0015", "0110", "0115", "0515", "0910", "1001", "1009", "1015"]


def gen_refuse(rng, n):
    return sorted(rng.sample(range(n), min(n, rng.choice((0, 0, 0, 1, 2))))) if n else []


class P10(Devices):
    prop = "P10"
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: 1-3 tasks with 1-8 calls over all light, dimmer, shutter and camera methods with arguments inside, on and outside "
            "their ranges; point, area, group, general and local-bus addresses; interleaved with each other, refused, cancelled.")

    def model(self, sc):
        return Home(sc)

    def gen(self, rng, i, tier):
        if i == 0:
            return {"dimmers": False, "devices": {"12": {"on": False, "level": 50}}, "net": {"lat": 0.01},
                    "tasks": [{"ops": [{"item": ["Light", "12"], "m": "turn_on_30_min"}]}]}
        sc = {"plan": gen_handshake(rng), "net": gen_net(rng), "dimmers": rng.random() < 0.6, "clients": rng.choice((1, 1, 2))}
        gen_common(rng, sc)
        pts = rng.sample(POINTS, rng.randrange(2, 7))
        pts = [p + (f"#4#{rng.choice(('01', '05', '12'))}" if rng.random() < 0.25 else "") for p in pts]
        sc["devices"] = {p: {"on": rng.random() < 0.5, "level": rng.choice(range(20, 101, 10)), "bright": [rng.randrange(100, 201), rng.randrange(256)],
                             "tempo": [rng.randrange(24), rng.randrange(60), rng.randrange(60)], "work": rng.randrange(1, 100001),
                             "hsv": [rng.randrange(360), rng.randrange(101), rng.randrange(101)], "white": rng.randrange(1, 65535)} for p in pts}
        sh = rng.sample(POINTS, rng.randrange(1, 4))
        sh = [p + (f"#4#{rng.choice(('01', '05', '12'))}" if rng.random() < 0.25 else "") for p in sh]
        sc["shutters"] = {p: rng.choice(("stop", "up", "down")) for p in sh}
        sc["groups"] = {str(g): rng.sample(pts + sh, rng.randrange(0, 3)) for g in (1, 7, 255)}
        wide = ["0", "0#4#01", "1", "4", "00", "100", "9", "#1", "#7", "#255", "#7#4#01", "1#4#05"]
        nt = rng.choice((1, 1, 2, 3))
        tasks, n = [], 0
        # a WHERE belongs to one task, so that every frame can be attributed
        lw = pts + rng.sample(wide, 4)
        rng.shuffle(lw)
        sw = sh + rng.sample(wide, 3)
        rng.shuffle(sw)
        for k in range(nt):
            ops = []
            mine, shu = lw[k::nt], sw[k::nt]
            for _ in range(rng.choice((1, 2, 4, 8))):
                how = rng.choice(("str", "where", "get"))
                r = rng.random()
                if r < 0.6 and mine:
                    cls = rng.choice(("Light", "Dimmer")) if sc["dimmers"] else "Light"
                    names = [m for m, (kd, _) in LIGHT.items() if kd == "both" or kd == cls.lower()]
                    m = rng.choice(sorted(names))
                    if rng.random() < 0.3:
                        m = rng.choice([x for x in sorted(QUERY) if x in names])
                    elif rng.random() < 0.45:
                        m = rng.choice([x for x in WITH_ARGS if x in names])
                    a, ok = light_args(rng, m) if not (m in ("turn_on", "turn_off") and cls == "Light") else ([], True)
                    o = {"item": [cls, rng.choice(mine), how], "m": m, "a": a, "valid": ok}
                elif r < 0.8 and shu:
                    o = {"item": ["Automation", rng.choice(shu), how], "m": rng.choice(("up", "down", "stop", "get_status")), "a": []}
                elif k == 0:
                    where = f"{4000 + rng.choice((0, 1, 42, 99))}"
                    if rng.random() < 0.25:
                        o = {"item": ["Camera", where, how], "m": "receive_video", "a": []}
                    elif rng.random() < 0.3:
                        if rng.random() < 0.25:
                            o = {"item": ["Camera", where, how], "m": "display_dial", "a": rng.choice(([0, 1], [5, 1], [1, 0], [4, 5], [-1, 2])), "valid": False}
                        else:
                            o = {"item": ["Camera", where, how], "m": "display_dial", "a": [rng.randrange(1, 5), rng.randrange(1, 5)]}
                    else:
                        o = {"item": ["Camera", where, how], "m": rng.choice(sorted(CAMERA)), "a": []}
                else:
                    continue
                o["gap"] = rng.choice((0, 0, 0, 0.05, 1.0))
                if nt <= sc["clients"] and rng.random() < 0.06:
                    o["cancel"] = gen_cancel(rng, (0, 0.005, 0.05, 0.3))
                ops.append(o)
                n += 1
            tasks.append({"start": rng.choice((0, 0, 0.05)), "client": k, "ops": ops})
        sc["tasks"] = tasks
        sc["refuse"] = gen_refuse(rng, n)
        return sc

    def key(self, o):
        cls, where = o["item"][:2]
        if cls == "Camera":
            return ("7", where if o["m"] == "receive_video" else "")
        return ("2" if cls == "Automation" else "1", where)

    def action(self, o):
        cls, m, a = o["item"][0], o["m"], tuple(o.get("a", ()))
        if cls == "Camera":
            return ("video",) if m == "receive_video" else ("dial", *a) if m == "display_dial" else ("camera", CAMERA[m])
        if cls == "Automation":
            return ("status",) if m == "get_status" else ("move", m)
        return LIGHT[m][1](a)

    def mismatch(self, w, o, name, want, r):
        if o["m"] == "turn_on_30_min" and r[2] == ("timed", 30):
            w.viol("wrong-action", f"{name} must turn the light on for 30 minutes, {r[3]!r} is 30 seconds", key="turn_on_30_min")
            return
        super().mismatch(w, o, name, want, r)

    def result(self, w, o, name, value, r):
        if o["m"] not in QUERY:
            return
        exp = r[4]
        if isinstance(exp, dict):
            exp = exp[o["item"][0].lower()]
        if norm(value) != norm(exp):
            w.viol("reading", f"{name} returned {norm(value)}, the devices hold {norm(exp)}")


# -- P11 -------------------------------------------------------------------------------------------
GETS = {"get_time": "0", "get_date": "1", "get_ip": "10", "get_netmask": "11", "get_macaddress": "12", "get_model": "15", "get_firmware": "16",
        "get_uptime": "19", "get_datetime": "22", "get_kernel_version": "23", "get_distribution_version": "24"}
MODELS = ["2", "4", "6", "7", "11", "200"]


def gen_date(r):
    k = r.random()
    if k < 0.3:
        return r.choice(([2024, 2, 29], [2000, 2, 29], [1999, 12, 31], [2000, 1, 1], [2038, 1, 19], [2099, 12, 31], [2024, 12, 31], [2025, 1, 1], [2023, 10, 1]))
    y, m = r.randrange(1990, 2100), r.randrange(1, 13)
    return [y, m, r.randrange(1, 32 if m in (1, 3, 5, 7, 8, 10, 12) else 31 if m != 2 else 29)]


def gen_time(r):
    return [r.choice((0, 9, 12, 23, r.randrange(24))), r.choice((0, 9, 59, r.randrange(60))), r.choice((0, 9, 59, r.randrange(60)))]


def gen_tz(r):
    return r.choice((0, 1, -1, 2, -2, 9, -9, 10, -10, 12, -12, 14, r.randrange(-12, 15)))


def dec_date(v):
    return (int(v[3]), int(v[2]), int(v[1]))


def dec_time(v):
    # (a gateway without a time zone leaves it empty: UTC)
    return (int(v[0]), int(v[1]), int(v[2]), int(v[3][1:]) * (-1 if v[3][0] == "1" else 1) if v[3] else 0)


class P11(Devices):
    prop = "P11"
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: 1-3 tasks with 1-8 reads and writes of every gateway dimension over all dates, times and whole-hour offsets of either "
            "sign (boundary values preferred), naive values that must be rejected, refusals, cancelled calls, two clients.")

    def model(self, sc):
        return GwModel(sc)

    def gen(self, rng, i, tier):
        sc = {"plan": gen_handshake(rng), "net": gen_net(rng), "clients": rng.choice((1, 1, 2))}
        gen_common(rng, sc)
        z = gen_tz(rng)
        T = [f"{x:02d}" for x in gen_time(rng)] + [f"{'1' if z < 0 else '0'}{abs(z):02d}"]
        d = gen_date(rng)
        D = [f"{env.real_date(*d).isoweekday() % 7:02d}", f"{d[2]:02d}", f"{d[1]:02d}", str(d[0])]
        d2 = gen_date(rng)
        z2 = gen_tz(rng)
        DT = [f"{x:02d}" for x in gen_time(rng)] + [f"{'1' if z2 < 0 else '0'}{abs(z2):02d}"] + [
            f"{env.real_date(*d2).isoweekday() % 7:02d}", f"{d2[2]:02d}", f"{d2[1]:02d}", str(d2[0])]
        if rng.random() < 0.1:
            T[3] = ""
        if rng.random() < 0.1:
            DT[3] = ""
        pre = rng.randrange(1, 31)
        mask = (0xFFFFFFFF << (32 - pre)) & 0xFFFFFFFF
        sc["gateway"] = {"0": T, "1": D, "22": DT, "10": [rng.choice((0, 1, 10, 192, 255, rng.randrange(256))) for _ in range(4)],
                         "11": [mask >> s & 255 for s in (24, 16, 8, 0)], "12": [rng.choice((0, 1, 9, 10, 15, 16, 99, 100, 255, rng.randrange(256))) for _ in range(6)],
                         "15": [rng.choice(MODELS)], "16": [rng.randrange(10), rng.randrange(20), rng.randrange(100)],
                         "19": [rng.choice((0, 1, 1000, rng.randrange(400))), rng.randrange(24), rng.randrange(60), rng.randrange(60)],
                         "23": [rng.randrange(10), rng.randrange(20), rng.randrange(200)], "24": [rng.randrange(10), rng.randrange(20), rng.randrange(100)]}
        tasks, n = [], 0
        nt = rng.choice((1, 1, 2, 3))
        for k in range(nt):
            ops = []
            for _ in range(rng.choice((1, 2, 4, 8))):
                r = rng.random()
                if r < 0.55:
                    m = rng.choice(sorted(GETS))
                    if rng.random() < 0.06:
                        m = "get_netinfo"
                    o = {"item": ["Gateway", ""], "m": m}
                elif r < 0.7:
                    o = {"item": ["Gateway", ""], "m": "set_time", "v": gen_time(rng) + [gen_tz(rng)]}
                elif r < 0.83:
                    o = {"item": ["Gateway", ""], "m": "set_date", "v": gen_date(rng)}
                else:
                    o = {"item": ["Gateway", ""], "m": "set_datetime", "v": gen_date(rng) + gen_time(rng) + [gen_tz(rng)]}
                if o["m"] in ("set_time", "set_datetime") and rng.random() < 0.1:
                    o["v"][-1] = None
                    o["valid"] = False
                o["gap"] = rng.choice((0, 0, 0.05, 1.0))
                if nt == 1 and rng.random() < 0.05 and o["m"] != "get_netinfo":
                    o["cancel"] = gen_cancel(rng, (0, 0.005, 0.05, 0.3))
                ops.append(o)
                n += 1
                if o["m"].startswith("set_") and rng.random() < 0.6:
                    ops.append({"item": ["Gateway", ""], "m": "g" + o["m"][1:], "gap": 0})
                    n += 1
            tasks.append({"start": rng.choice((0, 0, 0.05)), "client": k, "ops": ops})
        sc["tasks"] = tasks
        # (get_netinfo makes two requests: not mixed with refusals, so that each request has one owner)
        netinfo = any(o["m"] == "get_netinfo" for t in tasks for o in t["ops"])
        sc["refuse"] = gen_refuse(rng, n) if nt == 1 and not netinfo else []
        return sc

    def args(self, o):
        v = o.get("v")
        if v is None:
            return []
        z = v[-1]
        if o["m"] == "set_date":
            return [_dt.date(*v)]
        tz = None if z is None else _dt.timezone.utc if z == 0 else _dt.timezone(_dt.timedelta(hours=z))
        if o["m"] == "set_time":
            return [_dt.time(*v[:3], tzinfo=tz)]
        return [_dt.datetime(*v[:6], tzinfo=tz)]

    def judge(self, w, sc, done, got):
        # all calls share one address: attribute by content, and reads by the history of values
        pool = [r for r in got if r[1] is not None]
        # (done is in order of completion; a client carries one exchange at a time, so requests and ends have the same order)
        n = max(1, sc.get("clients", 1))
        for i, o, out in done:
            all_, pool = pool, [r for r in pool if r[5] == (sc["tasks"][i].get("client", 0) % n)]
            self.judge_one(w, sc, o, out, pool, all_)
            pool = all_
        for r in pool:
            w.viol("unasked", f"the gateway received {r[3]!r} at {r[0]:.3f}, which no call asked for ({r[2]})")

    def judge_one(self, w, sc, o, out, pool, all_):
        for _ in (0,):      # continue = done with this call
            name = f"{o['m']}({o.get('v', '')})"
            if not o.get("valid", True):
                if out.ok or out.kind in ("timeout", "ResponseError"):
                    w.viol("accepted", f"{name} without a time zone ended with {out}")
                continue
            if o["m"] == "get_netinfo":
                for d in ("10", "11"):
                    r = next((r for r in pool if r[2] == ("get", d) and out.start - 0.001 <= r[0] <= out.end + 0.001), None)
                    if r:
                        all_.remove(r)
                if out.ok:
                    ip, mk = sc["gateway"]["10"], sc["gateway"]["11"]
                    exp = ".".join(str(int(a) & int(b)) for a, b in zip(ip, mk)) + f"/{sum(bin(int(x)).count('1') for x in mk)}"
                    if str(out.value) != exp:
                        w.viol("reading", f"get_netinfo returned {out.value}, the gateway's network is {exp}")
                else:
                    w.viol("error", f"{name} ended with {out} although the gateway answered")
                continue
            want = self.action(o)
            # the request that left inside this call
            cand = [r for r in pool if out.start - 0.001 <= r[0] <= out.end + (0.5 if out.kind == "cancelled" else 0.001) and r[2] == want]
            if out.kind == "cancelled":
                if cand:
                    all_.remove(cand[0])
                continue
            if not cand:
                near = [r[3] for r in pool if out.start - 0.001 <= r[0] <= out.end + 0.001]
                w.viol("wrong-action", f"{name} must cause {want}, the gateway received {near[:3]} meanwhile; ended {out}")
                continue
            r = cand[0]
            all_.remove(r)
            if r[4] == "refused":
                if out.ok:
                    w.viol("refused", f"{name} returned {out} although the gateway refused it")
                continue
            if not out.ok:
                w.viol("error", f"{name} ended with {out} although the gateway accepted it: {r[3]}")
                continue
            w.probe("calls judged")
            if o["m"] in GETS and not self.same(o["m"], out.value, r[4]):
                w.viol("reading", f"{name} returned {out.value!r}, the gateway holds {r[4]}")

    def action(self, o):
        v = o.get("v")
        if o["m"] in GETS:
            return ("get", GETS[o["m"]])
        if o["m"] == "set_time":
            return ("set", "0", *v)
        if o["m"] == "set_date":
            return ("set", "1", *v)
        return ("set", "22", *v)

    @staticmethod
    def same(m, x, v):
        try:
            if m == "get_time":
                return isinstance(x, _dt.time) and (x.hour, x.minute, x.second, x.utcoffset().total_seconds() / 3600) == dec_time(v) and x.microsecond == 0
            if m == "get_date":
                return (x.year, x.month, x.day) == dec_date(v)
            if m == "get_datetime":
                return (x.hour, x.minute, x.second, x.utcoffset().total_seconds() / 3600) == dec_time(v[:4]) and (x.year, x.month, x.day) == dec_date(v[4:])
            if m in ("get_ip", "get_netmask"):
                return str(x) == ".".join(str(int(a)) for a in v)
            if m == "get_macaddress":
                return str(x).lower() == ":".join(f"{int(a):02x}" for a in v)
            if m == "get_model":
                return str(getattr(x, "value", x)) == str(v[0])
            if m == "get_uptime":
                return x.total_seconds() == ((int(v[0]) * 24 + int(v[1])) * 60 + int(v[2])) * 60 + int(v[3])
            return str(x) == ".".join(str(a) for a in v)
        except AttributeError:
            return False


# -- P12 -------------------------------------------------------------------------------------------
FLAGS = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off", "check_off",
         "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]
BAD_WHERE = ["2", "0", "", "9", "1", "5", "71", "71#1", "81#0", "51#4#02", "7#0", "#5", "11#4#01", "3", "25", "61", "#1#51", "71#4#0", "*", "a5",
             "1128", "1999", "50001", "10012", "70001#0", "10", "50", "5256", "5999", "51000", "70#0", "7256#0", "71#0#1", "71#00", "1" + "1" * 5000, "7" + "9" * 4400 + "#0"]


def gen_meters(rng):
    out = {}
    for where in rng.sample(["11", "15", "1127", "51", "52", "53", "510", "5255", "71#0", "72#0", "710#0", "7255#0", "111", f"5{rng.randrange(1, 256)}",
                            f"7{rng.randrange(1, 256)}#0", f"1{rng.randrange(1, 128)}"], rng.randrange(3, 8)):
        big = lambda: rng.choice((0, 1, 9, 100, 65535, 4294967295, rng.randrange(10 ** 6)))
        d = lambda: [big(), rng.randrange(1, 29), rng.randrange(1, 13), rng.randrange(2000, 2099), rng.randrange(24), rng.randrange(60)]
        out[where] = {"seed": rng.randrange(10 ** 6), "113": big(), "51": big(), "53": big(), "54": big(), "73": rng.randrange(1, 4),
                      "71": [rng.randrange(2), rng.randrange(2), rng.randrange(2), rng.randrange(2), rng.randrange(2), rng.choice((1, 2))],
                      "72": [d(), d()], "250": "".join(rng.choice("01") for _ in range(13)), "bits": rng.random() < 0.7}
    return out


class P12(Devices):
    prop = "P12"
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: 3-7 meters, actuators and Stop&Go devices with their own readings; 1-4 tasks with 1-8 readings and controls each, "
            "every method, full parameter ranges, several clients; refusals, cancelled calls; creation with documented and undocumented addresses.")

    def model(self, sc):
        return Energy(sc)

    def gen_op(self, rng, where):
        cls = "StopGo" if where[0] == "1" and rng.random() < 0.7 else "Energy"
        if cls == "StopGo" and rng.random() < 0.7:
            m = rng.choice(("enable_automatic_reset", "disable_automatic_reset", "request_status", "request_status", "request_one"))
            return {"item": ["StopGo", where, rng.choice(("str", "where"))], "m": "request_status" if m == "request_one" else m,
                    **({"dim": rng.randrange(251, 264)} if m == "request_one" else {})}
        m, a = rng.choice([
            ("get_active_power", []), ("get_energy_unit_totalizer", []), ("get_partial_totalizer_current_month", []),
            ("get_partial_totalizer_current_day", []), ("get_actuators_info", []), ("get_totalizers", [rng.choice((1, 2))]),
            ("get_differential_current_level", []), ("get_energy_unit_per_month", [rng.randrange(1, 13), rng.choice((0, 1, 9, 10, 24, 99))]),
            ("start_sending_daily_totalizers_hourly", [rng.randrange(1, 32), rng.randrange(1, 13)]),
            ("start_sending_monthly_average_hourly", [rng.randrange(1, 13)]), ("start_sending_monthly_totalizers_current_year", [rng.randrange(1, 13)]),
            ("start_sending_monthly_totalizers_last_year", [rng.randrange(1, 13)]), ("enable_actuator", []),
            ("force_actuator_on", rng.choice(([], [rng.randrange(1, 255)], [1], [254]))), ("force_actuator_off", []),
            ("reset_totalizers", [rng.choice((1, 2))]), ("start_sending_instant_power", [rng.choice((1, 255, rng.randrange(1, 256)))]),
            ("stop_sending_instant_power", [])])
        return {"item": [cls, where, rng.choice(("str", "where", "get"))], "m": m, "a": a}

    def gen(self, rng, i, tier):
        sc = {"plan": gen_handshake(rng), "net": gen_net(rng), "clients": rng.choice((1, 1, 2, 3)), "meters": gen_meters(rng)}
        gen_common(rng, sc)
        sc["bad"] = rng.sample(BAD_WHERE, 3)
        sc["badsg"] = rng.sample(["51", "71#0", "5255", "0", "2"], 1)
        ws = list(sc["meters"])
        nt = min(len(ws), rng.choice((1, 1, 2, 3, 4)))
        tasks, n = [], 0
        for k in range(nt):
            ops = []
            for _ in range(rng.choice((1, 2, 4, 8))):
                o = self.gen_op(rng, rng.choice(ws[k::nt]))
                o["gap"] = rng.choice((0, 0, 0, 0.05, 1.0))
                if nt <= sc["clients"] and rng.random() < 0.05:
                    o["cancel"] = gen_cancel(rng, (0, 0.005, 0.05, 0.3))
                ops.append(o)
                n += 1
            tasks.append({"start": rng.choice((0, 0, 0.05)), "client": k, "ops": ops})
        sc["tasks"] = tasks
        sc["refuse"] = gen_refuse(rng, n)
        return sc

    async def main(self, w, sc):
        from pyown.items.energy import EnergyManagement, StopGo

        gw0 = SimGateway(w.sim, host="10.9.9.9", seed=sc["seed"])
        c = make_client(gw0)
        for cls, wheres in ((EnergyManagement, sc.get("bad", ())), (StopGo, sc.get("badsg", ()))):
            for x in wheres:
                try:
                    it = cls(c, x)
                except Exception:  # noqa
                    w.probe("address rejected")
                else:
                    w.viol("address", f"{cls.__name__} accepted the address {x!r}: {it}")
        for x in sc["meters"]:
            want = {"1": "STOP_GO", "5": "POWER_METER", "7": "ACTUATOR"}[x[0]]
            try:
                got = EnergyManagement(c, x).get_type()
            except Exception as e:  # noqa
                got = e
            if getattr(got, "name", None) != want:
                w.viol("address", f"the device at {x!r} is a {want}, get_type() gave {got!r}")
        await super().main(w, sc)

    def kw(self, o):
        if not o.get("dim"):
            return {}
        from pyown.items.energy.enums import DimensionEnergy

        return {"dim_req": DimensionEnergy(str(o["dim"]))}

    def key(self, o):
        return ("18", o["item"][1])

    def action(self, o):
        m, a = o["m"], tuple(o.get("a", ()))
        t = {"get_active_power": ("get", "113"), "get_energy_unit_totalizer": ("get", "51"), "get_partial_totalizer_current_month": ("get", "53"),
             "get_partial_totalizer_current_day": ("get", "54"), "get_actuators_info": ("get", "71"), "get_differential_current_level": ("get", "73"),
             "enable_actuator": ("enable",), "force_actuator_off": ("endforce",), "stop_sending_instant_power": ("auto", 1, 0),
             "enable_automatic_reset": ("autoreset", True), "disable_automatic_reset": ("autoreset", False)}
        if m in t:
            return t[m]
        if m == "get_totalizers":
            return ("get", "72", a[0])
        if m == "get_energy_unit_per_month":
            return ("get", "52", a[1], a[0])
        if m == "start_sending_daily_totalizers_hourly":
            return ("daily", a[1], a[0])
        if m == "start_sending_monthly_average_hourly":
            return ("average", a[0])
        if m == "start_sending_monthly_totalizers_current_year":
            return ("thisyear", a[0])
        if m == "start_sending_monthly_totalizers_last_year":
            return ("lastyear", a[0])
        if m == "force_actuator_on":
            return ("force", a[0] if a else None)
        if m == "reset_totalizers":
            return ("reset", a[0])
        if m == "start_sending_instant_power":
            return ("auto", 1, a[0])
        if m == "request_status":
            return ("get", str(o.get("dim", 250)))
        raise AssertionError(m)

    def result(self, w, o, name, value, r):
        m, exp = o["m"], r[4]
        if exp is None:
            return
        if m == "get_actuators_info":
            got = tuple(getattr(value, x) for x in ("disabled", "forcing", "threshold", "protection", "phase", "advanced"))
            want = tuple(bool(x) for x in exp[:5]) + (exp[5] == 1,)
        elif m == "get_totalizers":
            d, e = value
            got = (d.year, d.month, d.day, d.hour, d.minute, e)
            want = (exp[3], exp[2], exp[1], exp[4], exp[5], float(exp[0]))
        elif m == "request_status":
            got = tuple(getattr(value, f) for f in FLAGS)
            if isinstance(exp, tuple):
                want = tuple((exp[1] == "1") if j == exp[0] else None for j in range(13))
            else:
                want = tuple(exp[12 - j] == "1" for j in range(13))
        else:
            got, want = (value,), (exp,)
        if got != want:
            w.viol("reading", f"{name} returned {got}, the device holds {want}")


_main = Devices.main


# -- P20 -------------------------------------------------------------------------------------------
class P20(P12):
    prop = "P20"
    runs = {"quick": 10000, "thorough": 100000}
    rule = ("Cases: calls with all, some or no parts of the period given, with the wall clock next to midnight, month end, year end and leap "
            "days, ticking or jumping (forward and back) between any two reads of the clock, several tasks and clients, delayed by other calls.")

    METHODS = ["start_sending_daily_totalizers_hourly", "get_energy_unit_per_month", "start_sending_monthly_average_hourly",
               "start_sending_monthly_totalizers_current_year", "start_sending_monthly_totalizers_last_year"]

    def gen(self, rng, i, tier):
        sc = {"plan": {"auth": "none"}, "net": gen_net(rng), "clients": rng.choice((1, 2)), "meters": gen_meters(rng)}
        if rng.random() < 0.3:
            sc["lag"] = rng.choice((0.5, 1, 5))
        y = rng.choice((1999, 2000, 2009, 2023, 2024, 2024, 2031, 2099))
        b = rng.choice(([y, 1, 1], [y, 1, 1], [y, 3, 1], [y, 2, 29 if y % 4 == 0 else 28], [y, 5, 1], [y, 10, 1], [y, 7, 17], [y, 11, 12], [y, 10, 25]))
        at = env.real_datetime(*b)
        # local midnight of that date minus a little
        sc["wall0"] = (at - env.EPOCH).total_seconds() - env.LOCAL_OFFSET + rng.choice((-0.5, -0.1, -0.02, -0.000001, -2.0, -30.0, 0.0, 7200.5, -7200.5, -3600.0))
        r = rng.random()
        if r < 0.5:
            sc["tick"] = rng.choice((0.000001, 0.01, 0.25, 1.0, 30.0, 86400.0, 40 * 86400.0))
        if r > 0.3:
            sc["wall_jumps"] = {str(rng.randrange(1, 6)): rng.choice((0.5, 1.0, 3600.0, -3600.0, 86400.0, -86400.0, 32 * 86400.0, -32 * 86400.0, 366 * 86400.0, -366 * 86400.0))
                                for _ in range(rng.randrange(1, 4))}
        ws = list(sc["meters"])
        nt = min(len(ws), rng.choice((1, 1, 2)))
        tasks = []
        for k in range(nt):
            ops = []
            for _ in range(rng.choice((1, 1, 2, 4))):
                m = rng.choice(self.METHODS[:2] + self.METHODS)
                given = lambda v: v if rng.random() < 0.35 else None
                if m == "start_sending_daily_totalizers_hourly":
                    a = [given(rng.randrange(1, 32)), given(rng.randrange(1, 13))]
                elif m == "get_energy_unit_per_month":
                    a = [given(rng.randrange(1, 13)), given(rng.choice((0, 5, 24, 99)))]
                else:
                    a = [given(rng.randrange(1, 13))]
                ops.append({"item": ["Energy", rng.choice(ws[k::nt]), "str"], "m": m, "a": a, "gap": rng.choice((0, 0, 0.05, 0.4, 1.0))})
            tasks.append({"start": rng.choice((0, 0.3)), "client": k, "ops": ops})
        sc["tasks"] = tasks
        return sc

    async def main(self, w, sc):
        self.reads = []
        orig = w.sim.wall

        def wall(tick=True):
            v = orig(tick)
            if tick:
                self.reads.append((w.sim.t, v))
            return v

        w.sim.wall = wall
        await _main(self, w, sc)

    def action(self, o):
        return None

    def judge(self, w, sc, done, got):
        queue = {}
        for r in got:
            if r[1] is not None:
                queue.setdefault(r[1], []).append(r)
        for i, o, out in done:
            m, a = o["m"], list(o["a"])
            q = queue.get(self.key(o), [])
            if not q:
                w.viol("not-sent", f"{m}({a}) ended with {out}, no request reached the gateway")
                continue
            r = q.pop(0)
            act = r[2]
            name = f"{m}({', '.join(map(str, a))})"
            if m == "start_sending_daily_totalizers_hourly":
                sent = {"day": act[2], "month": act[1]} if act[0] == "daily" else None
                giv = {"day": a[0], "month": a[1]}
            elif m == "get_energy_unit_per_month":
                sent = {"month": act[3], "year": act[2]} if act[:2] == ("get", "52") and len(act) == 4 else None
                giv = {"month": a[0], "year": a[1]}
            else:
                kind = {"start_sending_monthly_average_hourly": "average", "start_sending_monthly_totalizers_current_year": "thisyear",
                        "start_sending_monthly_totalizers_last_year": "lastyear"}[m]
                sent = {"month": act[1]} if act[0] == kind else None
                giv = {"month": a[0]}
            if sent is None:
                w.viol("wrong-action", f"{name} caused {r[3]!r}")
                continue
            if not out.ok:
                w.viol("error", f"{name} ended with {out} although the gateway accepted it")
                continue
            for k, v in giv.items():
                if v is not None and sent[k] != v:
                    w.viol("given", f"{name}: {k} {sent[k]} was sent")
            dflt = [k for k in giv if giv[k] is None]
            if not dflt:
                w.probe("period given")
                continue
            # instants this call may have observed: its own reads of the clock and the time around the call
            inst = [v for t, v in self.reads if out.start - 1e-6 <= t <= out.end + 1e-6]
            ok = False
            for v in inst:
                d = env.EPOCH + _dt.timedelta(seconds=v + env.LOCAL_OFFSET)
                p = {"day": d.day, "month": d.month, "year": d.year % 100}
                if all(sent[k] == p[k] for k in dflt):
                    ok = True
            if not inst:
                w.viol("mixed", f"{name} sent {sent} without reading the clock")
            elif not ok:
                w.viol("mixed", f"{name} sent {({k: sent[k] for k in dflt})}; the clock showed "
                                f"{[str(env.EPOCH + _dt.timedelta(seconds=v + env.LOCAL_OFFSET)) for v in inst][:6]} during the call")
            w.probe("default periods judged")
