"""Shared by the scenario families: generators, session setup, message comparison."""
import asyncio
import random

from .. import own
from ..gateway import SimGateway
from ..world import Skip, W, execute, merge_results  # noqa: F401

EPS = 0.05

REAL = ["pyown (whole library, imported from the working tree)", "asyncio event loop scheduler, tasks, queues, locks, timeouts",
        "asyncio selector socket transport (buffering, flow control, error paths)"]
STUB = ["sockets and TCP (simulated byte pipes)", "clock and timers (virtual time)", "wall clock (datetime/time)",
        "entropy (os.urandom, secrets, random)", "gateway and bus (reference model written from docs/original)",
        "application tasks (scenario)"]
ASSUME = ["TCP delivers each direction's bytes in order and unmodified until the connection ends",
          "callbacks and callers are coroutines of one asyncio loop; threads are out of scope",
          "the reference gateway follows docs/original; where the documents are silent the check does not judge"]


class Family:
    prop = "?"
    rule = ""
    real = REAL
    stub = STUB
    assumptions = ASSUME
    runs = {"quick": 2000, "thorough": 40000}

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, sc):
        raise NotImplementedError


# -- generators -----------------------------------------------------------------------------------
def gen_net(rng, plain=0.25):
    """Network behaviour; a quarter of the runs use a plain network so that faults do not mask bugs."""
    if rng.random() < plain:
        return {"seed": rng.randrange(1 << 30), "lat": rng.choice((0.0, 0.01))}
    n = {"seed": rng.randrange(1 << 30), "lat": rng.choice((0.0, 0.001, 0.01, 0.1)), "jitter": rng.choice((0.0, 0.0, 0.01, 0.2))}
    n["seg"] = rng.choice((0, 0, 1, 1, 2, 2, 3))
    if rng.random() < 0.3:
        n["recv_cap"] = rng.choice((1, 2, 5, 20))
    if rng.random() < 0.3:
        n["short_cap"] = rng.choice((1, 3, 10))
    return n


def gen_cancel(rng, choices):
    """When an operation is cancelled: after some time, or some loop steps after data arrived."""
    if rng.random() < 0.4:
        return [rng.choice((1, 1, 1, 2, 2, 3, 4, 6)), rng.choice((0, 0, 1, 1, 2, 3, 4, 5, 7))]
    return rng.choice(choices)


def gen_common(rng, sc):
    if rng.random() < 0.25:
        sc["lag"] = rng.choice((0.5, 1, 5))
    if rng.random() < 0.15:
        sc["debug_log"] = True
    if rng.random() < 0.1:
        sc["gc"] = sorted(rng.choice((0.02, 0.1, 0.5, 1.0, 2.5, 5.2, 9.0)) for _ in range(3))     # the garbage collector runs
    if rng.random() < 0.06:
        sc["idle_open"] = rng.choice((400, 4000, 90000, 700000))   # nothing happens for so long after the opening
    if rng.random() < 0.08:
        # somebody sets the computer's clock
        sc["jumps"] = [[round(rng.choice((rng.uniform(0, 1), rng.uniform(0, 12))), 2), rng.choice((1, -1)) * rng.choice((2.0, 60.0, 3600.0, 86400.0, 4e7))]
                       for _ in range(rng.randrange(1, 4))]
    return sc


def long_silence(rng, frames):
    """Now and then nothing happens on the bus for minutes, hours or days."""
    if frames and rng.random() < 0.15:
        rng.choice(frames)["gap"] = rng.choice((45, 130, 700, 4000, 11000, 100000, 700000))
    return frames


POINT = ["11", "12", "25", "37", "48", "0110", "0515", "1001", "0115", "91", "99"]


def gen_where(rng, kinds="pagbl"):
    k = rng.choice(kinds)
    if k == "p":
        return rng.choice(POINT)
    if k == "a":
        return rng.choice(["1", "4", "9", "00", "100"])
    if k == "g":
        return "#" + str(rng.randrange(1, 256))
    if k == "b":
        return rng.choice(POINT) + "#4#" + f"{rng.randrange(1, 10):02d}"
    return "0"


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def gen_value(rng):
    r = rng.random()
    if r < 0.7:
        return str(rng.randrange(0, 1000))
    if r < 0.8:
        return ""
    if r < 0.9:
        return digits(rng, rng.randrange(1, 12))
    return f"{rng.randrange(100)}#{rng.randrange(100)}"


def gen_who(rng):
    return rng.choice(sorted(own.KNOWN_WHO, key=lambda x: (len(x), x))) if rng.random() < 0.5 else rng.choice(["1", "2", "13", "18"])


def gen_what(rng):
    return rng.choice(["0", "1", "2", "10", "26", "57#3#12", "1000#1", "30#10#200", "0#255", "30#", "31#5#",
                       str(rng.randrange(0, 5000))])


def gen_dim(rng):
    return rng.choice(["1", "2", "0", "12", "22", "113", "52#24#3", "52#24#", "511#12#31", "72#1", str(rng.randrange(0, 1300))])


def gen_frame(rng, generic=True, acks=True):
    """A well-formed frame: the last field does not end with the character the terminator is made of."""
    return _gen_frame(rng, generic, acks).replace("###", "##")


def _gen_frame(rng, generic, acks):
    k = rng.randrange(0, 16)
    who = gen_who(rng)
    where = gen_where(rng) if rng.random() < 0.85 else rng.choice(["", "51", "71#0", "4000", "#0#1", "12#4#"])
    nwhere = where or "12"
    if k < 5:
        return own.normal(who, gen_what(rng), nwhere)
    if k < 6:
        return own.status(who, nwhere)
    if k < 8:
        return own.dimreq(who, where, gen_dim(rng))
    if k < 10:
        return own.dimwr(who, where, gen_dim(rng), *[gen_value(rng) for _ in range(rng.randrange(0, 5) if rng.random() < 0.9 else rng.randrange(5, 45))])
    if k < 13:
        return own.dimres(who, where, gen_dim(rng), *[gen_value(rng) for _ in range(rng.randrange(1, 9) if rng.random() < 0.9 else rng.randrange(9, 45))])
    if k < 14:
        return rng.choice((own.ACK, own.NACK)) if acks else own.normal(who, gen_what(rng), nwhere)
    if not generic:
        return own.normal(who, gen_what(rng), nwhere)
    u = rng.choice(["9", "77", "12", "1002", "999999"])
    return rng.choice([f"*{u}*{gen_what(rng)}*{nwhere}##", f"*#{u}*{nwhere}##", f"*#{u}*{nwhere}*{gen_dim(rng)}*5*6##",
                       f"*#{u}*{nwhere}*{gen_dim(rng)}##", "*99*1##", f"*{rng.randrange(30)}*{rng.randrange(30)}##",
                       f"*#{rng.randrange(1, 10**9)}##", f"*1*2*3*{rng.randrange(99)}##", "*98*2##", f"*{rng.randrange(10**6)}##",
                       "*1*1*12*3*4*5##", f"*#{u}*{nwhere}*#{gen_dim(rng)}*1##",
                       "*" + digits(rng, rng.choice((50, 300, 3000))) + "##"])


def gen_odd(rng):
    """A frame of the protocol's alphabet that no document describes: empty fields, stray parameters, long fields."""
    def field():
        r = rng.random()
        if r < 0.25:
            return ""
        if r < 0.6:
            return str(rng.randrange(0, 200))
        if r < 0.7:
            return "#"
        return "#".join(rng.choice(("", "1", "12", "0")) for _ in range(rng.randrange(2, 4))).replace("##", "#")

    t = [field() for _ in range(rng.randrange(1, 7))]
    if rng.random() < 0.3:
        t[rng.randrange(len(t))] = long_field(rng, rng.choice((40, 300)))
    if not t[-1].strip("#") or t[-1].endswith("#"):
        t[-1] += str(rng.randrange(10))
    return "*" + "*".join(t) + "##"


def long_field(rng, n):
    u = rng.choice(("1", "1", "12#", "0#1", "1#", digits(rng, 7)))
    return (u * (n // len(u) + 1))[:n].rstrip("#") + "1"


def gen_cuts(rng, text):
    n = len(text)
    r = rng.random()
    if r < 0.35:
        return []
    if r < 0.55:
        return [n - 1]                      # between the two final characters
    if r < 0.8:
        return sorted(rng.randrange(1, n) for _ in range(rng.randrange(1, 4)))
    if r < 0.9 and n < 80:
        return list(range(1, n))
    return [rng.randrange(1, n)]


def gen_gap(rng):
    return rng.choice((0, 0, 0, 0, 0.001, 0.01, 0.1, 0.5, 1.0, 2.0, 5.0))


def gen_handshake(rng):
    """Authentication of an ordinary, well-behaved gateway."""
    a = rng.choice(("none", "none", "none", "open", "sha1", "sha2"))
    p = {"auth": a}
    if a != "none":
        p["password"] = rng.choice(("12345", "00000", "1", "99999", "123456789"))
    return p


# -- sessions -------------------------------------------------------------------------------------
KINDS = {"cmd": ("CommandSession", "9"), "old": ("OldCommandSession", "0"), "event": ("EventSession", "1")}


def make_client(gw, kind="cmd", password="12345"):
    from pyown.client import Client, SessionType

    return Client(gw.host, gw.port, password, getattr(SessionType, KINDS[kind][0]))


async def open_client(w, gw, kind="cmd", password=None):
    """A started client, or Skip: families other than the handshake ones do not judge the handshake."""
    c = make_client(gw, kind, password if password is not None else gw.plan(gw.attempts).get("password", "12345"))
    o = await w.outcome(c.start(), "start")
    if not o.ok or not gw.sessions:
        raise Skip(f"session could not be opened: {o.kind}")
    # in an HMAC handshake the client's confirmation is still under way when start() returns
    s = gw.last
    for _ in range(400):
        if s.granted and s.state == "open":
            if w.sc.get("idle_open"):
                await asyncio.sleep(w.sc["idle_open"])
                w.probe("hours of silence on a session")
            return c
        await asyncio.sleep(0.05)
    raise Skip(f"session was not granted: {s.state}")


# -- comparing messages ---------------------------------------------------------------------------
def describe(m):
    """(kind, text, fields) of a pyown message through its public interface."""
    kind = str(m.type.value)
    f = {}
    if kind == "GENERIC":
        f["tags"] = [str(t) for t in m.tags]
    elif kind not in ("ACK", "NACK"):
        f["who"] = str(m.who)
        f["where"] = str(m.where)
        if kind == "NORMAL":
            f["what"] = str(m.what)
        if kind.startswith("DIMENSION"):
            f["dimension"] = str(m.dimension)
        if kind in ("DIMENSION WRITING", "DIMENSION RESPONSE"):
            f["values"] = [str(v) for v in m.values]
    return kind, f


def message_diff(m, text):
    """None if message m is exactly the frame text, else what differs."""
    try:
        if str(m) != text or m.message != text or m.bytes != text.encode():
            return f"text {m.message!r} instead of {text!r}"
        if not own.regular(text):
            return None        # the documents do not say what its fields are
        want = own.classify(text)
        got = describe(m)
        if got[0] != want[0]:
            return f"{text!r} was read as {got[0]}, it is {want[0]}"
        if got[1] != want[1]:
            return f"{text!r} has fields {got[1]}, expected {want[1]}"
        for name in ("what", "where", "dimension"):
            if name in want[1]:
                tag, *pars = want[1][name].split("#")
                x = getattr(m, name)
                if x.tag != tag or list(x.parameters) != pars:
                    return f"{text!r}: {name} reads as {x.tag!r} with parameters {x.parameters}, it is {tag!r} with {pars}"
        for v, t in zip(m.values if "values" in want[1] else (), want[1].get("values", ())):
            if v.string != t:
                return f"{text!r}: value reads as {v.string!r}, it is {t!r}"
    except Exception as e:  # noqa
        return f"{text!r}: message unusable: {type(e).__name__}: {e}"
    return None


def build_message(text, how="class"):
    """A pyown message object for a frame text, built with the public constructors."""
    import pyown.messages as pm
    from pyown.tags import Dimension, Value, What, Where, Who

    if how == "parse":
        return pm.parse_message(text)
    kind, f = own.classify(text)
    if kind == "ACK":
        return pm.ACK()
    if kind == "NACK":
        return pm.NACK()
    if kind == "NORMAL":
        return pm.NormalMessage((Who(f["who"]), What(f["what"]), Where(f["where"])))
    if kind == "STATUS REQUEST":
        return pm.StatusRequest((Who(f["who"]), Where(f["where"])))
    if kind == "DIMENSION REQUEST":
        return pm.DimensionRequest((Who(f["who"]), Where(f["where"]), Dimension(f["dimension"])))
    if kind == "DIMENSION WRITING":
        return pm.DimensionWriting((Who(f["who"]), Where(f["where"]), Dimension(f["dimension"]), *[Value(v) for v in f["values"]]))
    if kind == "DIMENSION RESPONSE":
        return pm.DimensionResponse((Who(f["who"]), Where(f["where"]), Dimension(f["dimension"]), *[Value(v) for v in f["values"]]))
    return pm.GenericMessage(list(f["tags"]))


def send_plan(w, s, items, start=0.0):
    """Gateway session s sends items [{f|g, gap, cuts, delays}] one after another; returns the time of the last one."""
    t = start
    for it in items:
        t += it.get("gap", 0)

        def go(it=it):
            if s.dead:
                return
            if "f" in it:
                s.send_text(it["f"], it.get("cuts"), it.get("delays"))
                burst(s, it)
            else:
                data = expand(it["g"])
                s.conn.send(data, it.get("cuts"), it.get("delays"))
                w.sim.count("fault", "malformed bytes sent")

        w.sim.at(w.sim.t0 + t, go)
    return t


def gen_flood(rng, items, net, big=1100, p=0.05):
    """Now and then one frame comes many times in a row: a scene switches the whole house, a meter reports in a loop."""
    items = [it for it in items if "f" in it and len(it["f"]) < 100]
    if items and rng.random() < p:
        slow = net.get("recv_cap") or net.get("seg") == 3
        rng.choice(items)["rep"] = rng.choice([n for n in (25, 40, 70, 110, 150, 300, 600, big) if n <= big and (n <= 150 or not slow)])


def burst(s, it):
    """The repetitions of a flooding frame, back to back in one segment; returns the arrival times."""
    n = it.get("rep", 1) - 1
    if n <= 0 or s.dead:
        return []
    s.sim.count("fault", "flood of frames")
    at = s.conn.send((it["f"] * n).encode("ascii"), [])
    return [at] * n


def expand(g):
    """Garbage description: hex string or ["rep", text, n, tail]."""
    if isinstance(g, list):
        return (g[1] * g[2] + g[3]).encode("latin-1")
    return bytes.fromhex(g)
