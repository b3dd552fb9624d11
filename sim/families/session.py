"""P04 establishment verdict, P05 HMAC, P06 opening terminates cleanly, P07 kind and state, P18 close and reopen."""
import asyncio
import re
import os
import random
import sys

from .. import env, own
from ..world import merge_results
from .common import *  # noqa
from .common import EPS, KINDS, Family

NUMERIC = ["12345", "00000", "1", "99999", "123456789", "0123", "4294967295", "4294967296", "10987654321"]


def gen_nonce(rng):
    n = rng.choice((1, 2, 5, 8, 9, 9, 9, 10, 12))
    d = "".join(rng.choice("0123456789") for _ in range(n))
    if rng.random() < 0.3:
        d = "".join(rng.choice("789") for _ in range(n))
    if rng.random() < 0.2:
        d = "0" * rng.randrange(1, 4) + d
    return d if d.strip("0") else d + "1"


def slow_steps(rng):
    return {s: rng.choice((0, 0.01, 0.5, 2.0, 3.5)) for s in ("session", "auth", "ra", "proof") if rng.random() < 0.4}


async def probe_session(w, c, s, kind, tag):
    """A granted session must be usable: bytes reach the gateway, or its frames reach the application."""
    f = own.normal(1, 1, tag)
    if kind == "event":
        s.send_text(f)
        o = await w.outcome(c.read_message(timeout=5), "read")
        return o.ok and str(o.value) == f
    n = len(s.frames)
    o = await w.outcome(c.send_message(build_message(f)), "send")
    await asyncio.sleep(3)
    return o.ok and [x for _, x in s.frames[n:]] == [f]


class P04(Family):
    prop = "P04"
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: 1-3 clients of any session kind opening concurrently, each 1-3 attempts, gateways with no or the numeric "
            "password challenge (nonces of 1-12 digits), right and wrong passwords, refusals at greeting, session request and "
            "answer, other frames instead of the verdict, slow steps, any segmentation.")

    def gen(self, rng, i, tier):
        sc = {"net": gen_net(rng), "clients": []}
        gen_common(rng, sc)
        for _ in range(rng.choice((1, 1, 2, 3))):
            pw = rng.choice(NUMERIC)
            cl = {"kind": rng.choice(("cmd", "event", "old")), "password": pw, "start": rng.choice((0, 0, 0.05, 1.0)), "attempts": []}
            for _ in range(rng.choice((1, 1, 2, 3))):
                p = {"auth": rng.choice(("none", "open", "open", "open")), "delays": slow_steps(rng)}
                if p["auth"] == "open":
                    p["nonce"] = gen_nonce(rng)
                    p["password"] = pw if rng.random() < 0.6 else rng.choice(NUMERIC + [pw + "0", "0" + pw, pw[:-1] or "7"])
                    if rng.random() < 0.12:
                        p["deny_password"] = True
                    if rng.random() < 0.12:
                        p["faults"] = {"auth": {"act": "frame", "data": rng.choice([own.NACK, "*#123##", "*1*1*12##", "*#*2##", "*98*1##", "*#*11##"])}}
                elif rng.random() < 0.1:
                    p["deny"] = True
                if rng.random() < 0.1:
                    p["deny"] = True
                if rng.random() < 0.12:
                    p["faults"] = {"greet": {"act": "frame", "data": rng.choice([own.NACK, "*1*1*12##", "*#603356072##", "*98*1##", "*99*0##", "*#*01##"])}}
                elif rng.random() < 0.06:
                    p["faults"] = {"session": {"act": "frame", "data": rng.choice(["*1*1*12##", "*#*2##", own.NACK, "*#1*12##"])}}
                p["greet_delay"] = rng.choice((0, 0, 0.01, 1.0, 4.0, 6.0, 9.0))
                cl["attempts"].append(p)
            sc["clients"].append(cl)
        return sc

    def run(self, sc):
        async def main(w):
            async def one(k, cl):
                gw = SimGateway(w.sim, host=f"10.1.0.{k + 1}", plans=cl["attempts"], net=sc.get("net", {}), seed=f"{sc['seed']}-{k}")
                await asyncio.sleep(cl.get("start", 0))
                c = make_client(gw, cl.get("kind", "cmd"), cl.get("password", "12345"))
                ann = f"*99*{KINDS[cl.get('kind', 'cmd')][1]}##"
                for a, plan in enumerate(cl["attempts"]):
                    o = await w.outcome(c.start(), f"start{k}")
                    if len(gw.sessions) != a + 1:
                        w.viol("connections", f"attempt {a} made {len(gw.sessions) - a} connections")
                        return
                    s = gw.sessions[a]
                    await asyncio.sleep(1)
                    frames = [f for _, f in s.frames]
                    want = [ann]
                    if plan.get("auth") == "open" and s.hs.get("nonce"):
                        want.append(f"*#{own.open_password(cl['password'], s.hs['nonce'])}##")
                    for v in s.violations:
                        w.viol(v[0], v[1])
                    if s.greet_time is None and frames:
                        w.viol("early", f"{frames} sent before the greeting")
                    gf = plan.get("faults", {}).get("greet")
                    if gf and frames:
                        w.viol("early", f"the gateway greeted with {gf['data']}, the client announced {frames}")
                    if frames != want[: len(frames)]:
                        w.viol("announce", f"the gateway received {frames}, expected {want} (session kind {cl.get('kind', 'cmd')}, "
                                           f"password {cl['password']}, nonce {s.hs.get('nonce')})")
                    if o.ok != bool(s.granted):
                        w.viol("verdict", f"the gateway {'granted' if s.granted else 'did not grant'} the session, start() ended with {o}")
                    if not (o.ok or plan.get("deny") or plan.get("deny_password") or plan.get("faults")) and plan.get("greet_delay", 0) <= 4 \
                            and (plan.get("auth", "none") == "none" or plan.get("password") == cl["password"]):
                        w.viol("refused", f"right password and honest gateway, but start() ended with {o} (nonce {s.hs.get('nonce')})")
                    w.probe("granted" if s.granted else "not granted")
                    if not o.ok:
                        if o.kind not in ("InvalidAuthentication", "timeout"):
                            w.viol("error-kind", f"opening failed with {o}")
                        for name, co in (("read", lambda: c.read_message(timeout=1)), ("send", lambda: c.send_message(build_message("*1*1*12##")))):
                            r = await w.outcome(co(), name)
                            if r.kind != "InvalidSession":
                                w.viol("usable", f"{name} on a client whose opening failed gave {r}")
                        await asyncio.sleep(1)
                        if [f for _, f in s.frames] != frames:
                            w.viol("usable", f"the gateway received {[f for _, f in s.frames]} after opening failed")
                    elif not w.viols:
                        if not await probe_session(w, c, s, cl.get("kind", "cmd"), 1000 + a):
                            w.viol("unusable", "a granted session does not carry frames")
                    await w.outcome(c.close(), "close")

            tasks = [w.loop.create_task(one(k, cl)) for k, cl in enumerate(sc["clients"])]
            pend = await w.finish(tasks, 600)
            if pend:
                w.viol("hang", "opening a session did not end")
            for t in tasks:
                if t.done() and t.exception():
                    raise t.exception()

        return execute(sc, main)


FORGE = ["random", "zero", "reflect_hash", "reflect_rb", "reflect_ra", "client_formula", "wrong_password", "no_password",
         "swapped", "other_nonce", "other_ra", "other_alg", "replay", "prefix", "suffix", "extended", "flip", "odd", "empty", "ack"]
PASSWORDS = ["12345", "abcde12345", "1", "0", "pass word", "P\u00e4ssw\u00f6rd", "", "x" * 64, "00012", "A1", "736F70653E"]


class P05(Family):
    prop = "P05"
    runs = {"quick": 12500, "thorough": 120000}
    rule = ("Cases: histories of 1-60 hashed handshakes (SHA-1 and SHA-256) by one or several clients, right and wrong "
            "passwords, 20 kinds of forged proof, unknown algorithms, missing and malformed frames, slow steps; process restarts "
            "with the clock at the same value and new entropy. Nonces are compared within a run, across restarts and across runs.")

    def gen_round(self, rng, hist=False):
        alg = rng.choice(("sha1", "sha2"))
        pw = rng.choice(PASSWORDS)
        p = {"auth": alg, "password": pw, "kind": rng.choice(("cmd", "event", "old")), "client": rng.randrange(3)}
        if hist:
            return p
        r = rng.random()
        if r < 0.25:
            pass
        elif r < 0.4:
            p["client_pw"] = rng.choice([x for x in PASSWORDS if x != pw] + [pw + " ", pw + "0", pw.upper() + "x"])
        elif r < 0.8:
            p["forge"] = rng.choice(FORGE)
            p["keep"] = rng.randrange(0, 64)
            if rng.random() < 0.3:
                p["client_pw"] = rng.choice([x for x in PASSWORDS if x != pw])
        elif r < 0.9:
            step = rng.choice(("session", "ra", "proof"))
            data = {"session": ["*98*3##", "*98*0##", "*98*12##", "*98##", "*98*1*1##"],
                    "ra": [own.NACK, own.ACK, "*#1##", "*#99##", "*#1616##", "*1*1*12##", "*#*5##", "*##"],
                    "proof": [own.NACK, own.ACK, "*#1##", "*#99##", "*1*1*12##", "*#*1*1##", "*#*##", "*##"]}[step]
            p["faults"] = {step: {"act": "frame", "data": rng.choice(data)}}
            if rng.random() < 0.6 and p["faults"][step]["data"] != "*98##":      # (*98## may be read as a nonce for open authentication)
                n = rng.choice((20, 32))
                p["faults"][step]["more"] = [rng.choice(["*#" + digits(rng, 4 * n) + "##", "*#" + "".join(f"{rng.randrange(16):02d}" for _ in range(2 * n)) + "##", own.ACK])
                                             for _ in range(rng.randrange(1, 4))]
        else:
            p["faults"] = {rng.choice(("session", "ra", "proof")): {"act": rng.choice(("silence", "eof", "rst", "partial"))}}
        if rng.random() < 0.15:
            n = 40 if alg == "sha1" else 64
            p["ra"] = rng.choice(["0" * n, "f" * n, "0123456789abcdef" * (n // 16 + 1)])[:n]
        p["delays"] = slow_steps(rng)
        return p

    def gen(self, rng, i, tier):
        r = rng.random()
        sc = {"net": gen_net(rng)}
        gen_common(rng, sc)
        if r < 0.06:
            sc["rounds"] = [self.gen_round(rng, True) for _ in range(60)]
            sc["net"] = {"lat": 0.001}
            sc.pop("lag", None)
        elif r < 0.09:
            sub = [{"rounds": [self.gen_round(rng, True) for _ in range(rng.randrange(1, 4))], "net": {"lat": 0.001},
                    "seed": f"inc{j}-{rng.randrange(1 << 30)}"} for j in range(3)]
            sc = {"incarnations": sub}
        else:
            sc["rounds"] = [self.gen_round(rng) for _ in range(rng.randrange(1, 5))]
        for x in sc.get("incarnations", [sc]):
            if rng.random() < 0.5:
                x["weak"] = True
        return sc

    def run(self, sc):
        if sc.get("incarnations"):
            parts = []
            from ..runner import forked, normal
            for sub in sc["incarnations"]:
                def fresh(sub=sub):
                    # a new process: the library is imported again, the clock starts at the same value, entropy differs
                    for name in [m for m in sys.modules if m == "pyown" or m.startswith("pyown.")]:
                        del sys.modules[name]
                    random.seed(sub["seed"])
                    return self.run_rounds(dict(sub, _keep_hist=sc.get("_keep_hist")))

                parts.append(normal(forked(fresh)))
            out = merge_results(parts)
            seen = {}
            for j, p in enumerate(parts):
                for rb in p["notes"].get("rb", ()):
                    if rb in seen:
                        out["viols"].append({"rule": "nonce-reuse", "key": "nonce-reuse", "t": 0,
                                             "detail": f"process {j} used the client nonce {rb} that process {seen[rb]} had used"})
                    seen[rb] = j
            out["faults"]["process restart with the clock reset"] = len(parts) - 1
            return out
        return self.run_rounds(sc)

    def run_rounds(self, sc):
        async def main(w):
            plans = [dict({"auth": "sha2", "password": "12345"}, **p) for p in sc["rounds"]]
            gw = SimGateway(w.sim, plans=plans, net=sc.get("net", {}), seed=sc["seed"])
            clients = {}
            w.notes["rb"] = []
            for a, p in enumerate(plans):
                cpw = p.get("client_pw", p["password"])
                key = (p.get("client", 0), p.get("kind", "cmd"), cpw)
                c = clients.get(key) or clients.setdefault(key, make_client(gw, p.get("kind", "cmd"), cpw))
                o = await w.outcome(c.start(), "start")
                await asyncio.sleep(2)
                s = gw.sessions[a] if len(gw.sessions) == a + 1 else None
                if s is None:
                    w.viol("connections", "start() did not make exactly one connection")
                    return
                rb = s.hs.get("rb")
                if s.hs.get("client_frame"):
                    n = 40 if s.hs["alg"] == 1 else 64
                    if rb is None or len(rb) != n:
                        w.viol("nonce-length", f"the client's nonce is not {n} hexadecimal digits: {s.hs['client_frame']}")
                    elif rb in w.notes["rb"]:
                        w.viol("nonce-reuse", f"handshake {a} reuses the nonce of handshake {w.notes['rb'].index(rb)}: {rb}")
                    if rb is not None:
                        w.notes["rb"].append(rb)
                        w.probe("client nonces seen")
                    if rb == s.hs["ra"]:
                        w.viol("nonce-reuse", "the client's nonce is the gateway's")
                    if cpw == p["password"] and not s.hs["client_ok"] and "forge" not in p:
                        w.viol("refused", f"right password, but the client's hash is wrong: {s.hs['client_frame']}")
                confirm = s.hs.get("confirm")
                fault = p.get("faults")
                # whether the peer showed the client that it knows the password the client has, for these nonces
                proved = bool(rb is not None and s.hs.get("proof") == own.to_digits(own.hmac_server(s.hs["alg"], s.hs["ra"], rb, cpw))
                              and "proof" not in (fault or {}))
                if confirm == own.ACK and not proved:
                    w.viol("confirmed-forgery", f"the client confirmed a gateway that did not prove the password ({p.get('forge')})")
                honest = "forge" not in p and not fault
                if honest and cpw == p["password"]:
                    if not o.ok:
                        w.viol("refused", f"right password and honest gateway, but start() ended with {o}")
                    elif not s.granted:
                        w.viol("unconfirmed", f"start() succeeded, the gateway got {confirm} as confirmation")
                    w.probe("honest handshakes")
                elif o.ok:
                    if not (p.get("forge") and proved):
                        w.viol("accepted", f"start() succeeded although the gateway did not accept or did not prove the password "
                                           f"(forge {p.get('forge')}, faults {fault}, right password {cpw == p['password']})")
                else:
                    w.probe("handshakes rejected")
                    if o.kind == "other":
                        w.viol("error-kind", f"start() ended with {o}")
                await w.outcome(c.close(), "close")

        return execute(sc, main)

    def cross_run(self):
        fam = self

        class X:
            def __init__(self):
                self.seen = {}

            def add(self, r):
                for rb in r["notes"].get("rb", ()):
                    if rb in self.seen and self.seen[rb] != r["i"]:
                        return {"rule": "nonce-reuse", "key": "nonce-reuse", "t": 0, "pair": [self.seen[rb], r["i"]],
                                "detail": f"runs {self.seen[rb]} and {r['i']} (separate processes) used the same client nonce {rb}"}
                    self.seen[rb] = r["i"]
                return None

        return X()

    def pair_scenario(self, a, b):
        return {"incarnations": [a, b]}


HS_FRAMES = [own.NACK, own.ACK, "*98*3##", "*98##", "*98*##", "*##", "*#0##", "*#000##", "*#12345678901234567890##", "*1*1*12##",
             "*#1*12##", "*#13**0*10*20*30*001##", "*99*9##", "*98*1*2##", "*#98##", "**##", "*#*#*##", "*#*2##", "*98*1##", "*98*2##",
             "*#603356072##", "*#1#2##", "*#0101##", "*#010##", "*#9999##", "*77*1*1##", "*" + "1" * 3000 + "##", "*#" + "15" * 32 + "##",
             "*#" + "01" * 20 + "##", "*#*1*1##"]
HS_RAW = ["ffff", "23232323", "485454502f312e31203430300d0a0d0a", "2a2378232323", "2a230023232a", "2323", "0a", "2a312323ff2323",
          "616263", "2a232a31", "c3a92323", "2a232a3123232a232a3023232a39382a3123232a23232a312323"]


class P06(Family):
    prop = "P06"
    runs = {"quick": 17500, "thorough": 150000}
    rule = ("Cases: 1-4 failing or hostile attempts (connect refused / unreachable / no name / timeout, fault at each handshake "
            "step: silence, EOF, reset, vanish, partial, foreign or duplicated frames, raw bytes, late) or cancellation at any "
            "time, any authentication kind and odd passwords, then a healthy gateway.")

    def gen_plan(self, rng, pw):
        p = {"auth": rng.choice(("none", "open", "sha1", "sha2")), "password": rng.choice((pw, pw, "12345")), "delays": slow_steps(rng)}
        if p["auth"] == "open" and not p["password"].isdigit():
            p["password"] = "12345"
        r = rng.random()
        if r < 0.15:
            p["connect"] = {"fail": rng.choice(("refused", "unreachable", "dns", "timeout")), "delay": rng.choice((0, 0.01, 1.0, 20.0))}
        elif r < 0.85:
            step = rng.choice(("greet", "session", "auth", "ra", "proof"))
            act = rng.choice(("silence", "eof", "rst", "vanish", "frame", "frame", "frame", "raw", "raw", "partial", "honest_then_drop", "late", "dup", "chatter"))
            f = {"act": act, "delay": rng.choice((0, 0, 0.01, 1.0, 4.9, 6.0))}
            if act == "frame":
                f["data"] = rng.choice(HS_FRAMES)
                if rng.random() < 0.5:
                    f["more"] = [rng.choice(HS_FRAMES) for _ in range(rng.randrange(1, 4))]
            elif act == "chatter":
                f["data"] = rng.choice(HS_FRAMES + ["*1*1*12##", "*#1*12*1*100*1##", "*#13**0*1*2*3*001##", "*#1*12##", "*2*0*11##"])
                f["every"] = rng.choice((0.1, 1.0, 3.0, 4.5))
            elif act == "raw":
                f["data"] = rng.choice(HS_RAW)
            elif act == "honest_then_drop":
                f["how"] = rng.choice(("eof", "rst", "vanish"))
            p["faults"] = {step: f}
            if rng.random() < 0.2:
                p["connect"] = {"delay": rng.choice((0.5, 3.0))}
        if rng.random() < 0.15:
            p["greet_delay"] = rng.choice((1.0, 4.9, 5.1, 30.0))
        if rng.random() < 0.12:
            p["net"] = {"stalls": [[rng.choice((0, 0.005, 0.02, 0.1, 2.0)), rng.choice((0.5, 3.0, 8.0, 40.0))]]}
        return p

    def gen(self, rng, i, tier):
        pw = rng.choice(NUMERIC + PASSWORDS)
        sc = {"net": gen_net(rng), "password": pw, "kind": rng.choice(("cmd", "event", "old")), "attempts": []}
        gen_common(rng, sc)
        for _ in range(rng.choice((1, 1, 2, 3, 4))):
            a = {"plan": self.gen_plan(rng, pw)}
            if rng.random() < 0.35:
                a["cancel"] = gen_cancel(rng, (0, 0.001, 0.01, 0.02, 0.03, 0.05, 0.1, 0.5, 1, 3, 5.0, 7.5, round(rng.uniform(0, 0.1), 4), round(rng.uniform(0, 6), 3)))
            if rng.random() < 0.3:
                a["fresh"] = True
            a["pause"] = rng.choice((0, 0, 0.01, 1.0, 10.0))
            sc["attempts"].append(a)
        auths = ["none", "sha1", "sha2"] + (["open"] if pw.isdigit() else [])
        sc["healthy"] = {"auth": rng.choice(auths), "password": pw}
        return sc

    def run(self, sc):
        async def main(w):
            plans = [a["plan"] for a in sc["attempts"]] + [sc.get("healthy", {})]
            gw = SimGateway(w.sim, plans=plans, net=sc.get("net", {}), seed=sc["seed"])
            kind = sc.get("kind", "cmd")
            c = make_client(gw, kind, sc.get("password", "12345"))
            others = []
            for a in sc["attempts"]:
                n = len(gw.sessions)
                t = w.spawn(c.start(), "start", w.when(a))
                plan = a["plan"]
                lim = (135 if plan.get("connect", {}).get("fail") == "timeout" else plan.get("connect", {}).get("delay", 0) + 1) + 60
                if await w.finish([t], lim):
                    w.viol("hang", f"start() has not ended after {lim:.0f} s (gateway plan {plan})")
                    return
                o = t.result()
                if o.kind == "other":
                    w.viol("error-kind", f"start() ended with {o} (gateway plan {plan})")
                if o.kind == "cancelled" and a.get("cancel") is None:
                    w.viol("error-kind", "start() was cancelled by nobody")
                w.probe(f"start ended: {o.kind}")
                if not o.ok:
                    # a connection closed during a stall ends when what was written before has left
                    held = [s.conn.stall_until - w.sim.t0 for s in gw.sessions]
                    await w.until(max([w.sim.t] + held) + 1)
                    left = [s.conn.name for s in gw.sessions if s.conn.client_open and s not in others]
                    if left:
                        w.viol("leak", f"start() ended with {o.kind}; the connection to the gateway is still open a second later")
                        return
                if a.get("pause"):
                    await asyncio.sleep(a["pause"])
                if a.get("fresh"):
                    if o.ok and gw.last is not None:
                        await w.outcome(c.close(), "close")
                    c = make_client(gw, kind, sc.get("password", "12345"))
            gw.attempts = len(sc["attempts"])   # the healthy gateway answers now
            t = w.spawn(c.start(), "start healthy")
            if await w.finish([t], 60):
                w.viol("hang", "start() against the healthy gateway has not ended")
                return
            o = t.result()
            if not o.ok:
                w.viol("no-recovery", f"after {len(sc['attempts'])} bad attempts, start() against a healthy gateway ended with {o}")
                return
            s = gw.last
            await asyncio.sleep(1)
            if not s.granted:
                w.viol("no-recovery", f"start() succeeded, the healthy gateway did not grant a session ({s.state})")
            elif not await probe_session(w, c, s, kind, 1234):
                w.viol("no-recovery", "the session with the healthy gateway does not carry frames")
            await w.outcome(c.close(), "close")

        return execute(sc, main)


OPS = ("send", "cmd", "query", "dim", "read", "loop")


class P07(Family):
    prop = "P07"
    runs = {"quick": 12500, "thorough": 120000}
    rule = ("Cases: one to three clients of any kind, each with a history of opens (granted, refused, silent, unreachable, "
            "cancelled), closes and operations (raw send, item command, status and dimension query, read, event loop), while "
            "other tasks try the operations its kind forbids at random times, also during opening and closing.")

    def gen(self, rng, i, tier):
        sc = {"net": gen_net(rng), "clients": []}
        gen_common(rng, sc)
        if rng.random() < 0.25:
            return self.gen_during(rng, sc)
        for _ in range(rng.choice((1, 1, 2, 3))):
            steps, plans = [], []
            for _ in range(rng.randrange(2, 10)):
                r = rng.random()
                if r < 0.3:
                    p = {"auth": "none"}
                    x = rng.random()
                    if x < 0.15:
                        p["deny"] = True
                    elif x < 0.25:
                        p["faults"] = {rng.choice(("greet", "session")): {"act": rng.choice(("silence", "eof", "rst", "frame")), "data": "*#*0##"}}
                    elif x < 0.32:
                        p["connect"] = {"fail": rng.choice(("refused", "unreachable"))}
                    elif x < 0.5:
                        p = {"auth": rng.choice(("open", "sha1", "sha2")), "password": rng.choice(("12345", "12345", "54321")), "delays": slow_steps(rng)}
                    st = {"op": "start"}
                    if rng.random() < 0.12:
                        st["cancel"] = gen_cancel(rng, (0, 0.005, 0.015, 0.025, 0.5))
                    steps.append(st)
                    plans.append(p)
                elif r < 0.42:
                    steps.append({"op": "close"})
                elif r < 0.5:
                    steps.append({"op": "push", "n": rng.randrange(1, 4)})
                elif r < 0.56:
                    steps.append({"op": "drop", "how": rng.choice(("eof", "rst"))})
                else:
                    steps.append({"op": rng.choice(OPS), "pause": rng.choice((0, 0, 0.1, 1.0))})
            if rng.random() < 0.4:
                # a session that leaves something behind, then the client is not open any more
                plans.append({"auth": "none"})
                steps.append({"op": "start"})
                if rng.random() < 0.8:
                    steps.append({"op": "push", "n": rng.randrange(1, 4)})
                if rng.random() < 0.7:
                    steps.append({"op": "drop", "how": rng.choice(("eof", "rst"))})
                again = rng.random() < 0.45
                if not again or rng.random() < 0.4:
                    steps.append({"op": "close"})
                if again:
                    plans.append(rng.choice(({"connect": {"fail": "refused"}}, {"deny": True}, {"faults": {"greet": {"act": "silence"}}})))
                    steps.append({"op": "start"})
                steps += [{"op": rng.choice(OPS), "pause": rng.choice((0, 0.1))} for _ in range(rng.randrange(1, 4))]
            cl = {"kind": rng.choice(("cmd", "event", "old")), "steps": steps, "plans": plans or [{}], "forbidden": []}
            for _ in range(rng.choice((0, 2, 5))):
                cl["forbidden"].append({"at": round(rng.choice((rng.uniform(0, 0.2), rng.uniform(0, 10))), 3), "op": rng.choice(("send", "cmd", "query", "dim", "set"))})
            sc["clients"].append(cl)
        return sc

    def gen_during(self, rng, sc):
        """One client that a supervising task opens and closes while other tasks keep using it."""
        lives = []
        for _ in range(rng.choice((1, 2, 3))):
            p = {"auth": rng.choice(("none", "open", "sha1", "sha2")), "password": "12345", "delays": slow_steps(rng), "greet_delay": rng.choice((0, 0.3, 2.0))}
            if rng.random() < 0.15:
                p["connect"] = {"delay": rng.choice((0.2, 1.0))}
            if rng.random() < 0.15:
                p["deny"] = True
            lives.append({"plan": p, "open": rng.choice((0.3, 2.0, 4.0)), "how": rng.choice(("close", "close", "eof", "rst", "start")), "shut": rng.choice((0, 0, 0.2, 1.5))})
        sc["during"] = {"kind": rng.choice(("cmd", "event", "old")), "lives": lives, "ops": []}
        for _ in range(rng.choice((2, 4, 8))):
            sc["during"]["ops"].append({"at": round(rng.uniform(0, 4 * len(lives)), 2), "op": rng.choice(OPS)})
        return sc

    def run_during(self, sc, op, answer):
        d = sc["during"]

        async def main(w):
            kind = d["kind"]
            gw = SimGateway(w.sim, plans=[x["plan"] for x in d["lives"]], net=sc.get("net", {}), seed=sc["seed"], on_frame=answer)
            c = make_client(gw, kind, "12345")
            line = [(w.sim.t, "shut")]      # what the client is, from when on
            recs = []

            async def use(n, x):
                await asyncio.sleep(x["at"])
                t0 = w.sim.t
                t = w.spawn(op(c, x["op"], n), x["op"])
                if await w.finish([t], 30):
                    if x["op"] != "loop" or kind != "event":
                        w.viol("hang", f"{x['op']} did not end")
                    t.cancel()
                    await w.finish([t], 5)
                recs.append((x["op"], t0, t.result() if t.done() else None))

            ts = [w.loop.create_task(use(n, x)) for n, x in enumerate(d["ops"])]
            for k, lf in enumerate(d["lives"]):
                line.append((w.sim.t, "opening"))
                o = await w.outcome(c.start(), "start")
                line.append((w.sim.t, "open" if o.ok else "shut"))
                await asyncio.sleep(lf["open"])
                honest = not lf["plan"].get("deny")
                if len(gw.sessions) == k + 1:
                    s = gw.last
                    early = [f for _, f in (s.frames[: s.after] if s.granted else s.frames) if f.startswith(("*1*", "*#1*", "*2*", "*#2*"))]
                    if early:
                        w.viol("wire", f"while the client was being opened, the gateway received {early}")
                if honest and not o.ok:
                    w.viol("opening", f"while other tasks used the client, opening it at a healthy gateway ended with {o}")
                if w.viols:
                    return
                w.probe("opened while other tasks used the client")
                how = lf["how"]
                if how in ("eof", "rst") and o.ok:
                    line.append((w.sim.t, "odd"))
                    gw.last.drop(how)
                elif how == "close" or not o.ok:
                    line.append((w.sim.t, "shut"))
                    await w.outcome(c.close(), "close")
                await asyncio.sleep(lf["shut"])
            line.append((w.sim.t, "shut"))
            await w.outcome(c.close(), "close")
            await w.finish(ts, 60)
            for name, t0, o in recs:
                # what the client was during the call, with some room around the changes
                was = {st for (t, st), (t2, _) in zip(line, line[1:] + [(1e18, "")]) if t <= t0 + 0.3 and t2 >= t0 - 0.3}
                if o is None:
                    continue
                if o.kind == "other":
                    w.viol("error-kind", f"{name} at {t0:.2f} ended with {o}")
                if was <= {"shut", "opening"}:
                    w.probe("operations on a client that is opening or shut")
                    if o.kind != "InvalidSession" or o.dur > 0.5:
                        w.viol("state", f"{name} at {t0:.2f} on a {kind} client that is {sorted(was)} gave {o}, not the session error at once")
                forbidden = name == "loop" if kind != "event" else name not in ("loop", "read")
                if forbidden and o.kind != "InvalidSession":
                    w.viol("kind", f"{name} on a {kind} session gave {o}, not the session error")
            if kind == "event":
                for s in gw.sessions:
                    if any(f.startswith(("*1*", "*#1*", "*2*", "*#2*")) for _, f in s.frames):
                        w.viol("wire", f"an event client put {s.frames} on the wire")

        return execute(sc, main)

    def run(self, sc):
        from pyown.items.automation import Automation
        from pyown.items.lighting import Dimmer, Light

        def op(c, name, n):
            light = Dimmer(c, str(500 + n))
            if name == "send":
                return c.send_message(build_message(own.normal(1, 1, 500 + n)))
            if name == "cmd":
                return light.turn_on() if n % 2 else Automation(c, str(500 + n)).up()
            if name == "query":
                async def q():
                    return [x async for x in light.get_status()]
                return q()
            if name == "dim":
                async def d():
                    return [x async for x in light.send_dimension_request("1")]
                return d()
            if name == "set":
                return light.send_dimension_writing("1", "150", "10")
            if name == "read":
                return c.read_message(timeout=1)
            return c.loop()

        def answer(s, f):
            k, x = own.classify(f)
            if k == "STATUS REQUEST":
                s.send_text(own.normal(x["who"], 1, x["where"]))
            if k == "DIMENSION REQUEST":
                s.send_text(own.dimres(x["who"], x["where"], x["dimension"], 1, 2))
            s.send_text(own.ACK)

        if sc.get("during"):
            return self.run_during(sc, op, answer)

        async def main(w):
            async def one(k, cl):
                kind = cl.get("kind", "cmd")
                gw = SimGateway(w.sim, host=f"10.2.0.{k + 1}", plans=cl.get("plans", [{}]), net=sc.get("net", {}), seed=f"{sc['seed']}-{k}", on_frame=answer)
                c = make_client(gw, kind, "12345")
                state = "closed"

                def session_frames():
                    return [f for s in gw.sessions for _, f in s.frames[s.after:] if s.granted]

                def all_raw():
                    return sum(s.raw_len() for s in gw.sessions)

                async def forbidden(n, fb):
                    await asyncio.sleep(fb["at"])
                    name = fb["op"] if kind == "event" else "loop"
                    t = w.spawn(op(c, name, 1000 + n), f"forbidden {name}")
                    if await w.finish([t], 20):
                        w.viol("kind", f"{name} on a {kind} session did not end")
                        t.cancel()
                        return
                    o = t.result()
                    if o.kind != "InvalidSession":
                        w.viol("kind", f"{name} on a {kind} session gave {o}, not the session error")
                    w.probe("forbidden operations tried")

                fts = [w.loop.create_task(forbidden(n, fb)) for n, fb in enumerate(cl.get("forbidden", ()))]
                loops = []
                for n, st in enumerate(cl["steps"]):
                    if st.get("pause"):
                        await asyncio.sleep(st["pause"])
                    name = st["op"]
                    if name == "start":
                        t = w.spawn(c.start(), "start", w.when(st))
                        o = await t
                        if o.ok and st.get("cancel") is None and gw.sessions:
                            await asyncio.sleep(1)
                        state = "open" if o.ok else "failed"
                        if o.ok and not gw.last.granted:
                            state = "odd"
                    elif name == "close":
                        await w.outcome(c.close(), "close")
                        state = "closed"
                    elif name == "push":
                        # frames nobody asked for, left unread
                        if state == "open" and not gw.last.dead:
                            for j in range(st.get("n", 1)):
                                gw.last.send_text(own.normal(1, j % 2, 700 + n))
                            await asyncio.sleep(2)
                            w.probe("unread frames left on a session")
                    elif name == "drop":
                        if state == "open" and not gw.last.dead:
                            gw.last.drop(st.get("how", "eof"))
                            await asyncio.sleep(2)
                            state = "odd"      # until the application closes or opens it again
                    else:
                        allowed = state == "open" and (name == "read" or (name == "loop") == (kind == "event"))
                        if state == "odd":
                            continue
                        if allowed and name == "loop":
                            loops.append(w.spawn(c.loop(), "loop"))
                            await asyncio.sleep(0.5)
                            if loops[-1].done():
                                w.viol("refused", f"the event loop of an open event session ended at once: {loops[-1].result()}")
                            # reading beside the loop is not judged
                            loops[-1].cancel()
                            await w.finish([loops[-1]], 5)
                            continue
                        if not allowed:
                            await asyncio.sleep(0.5)
                        before = len(session_frames()), all_raw()
                        t = w.spawn(op(c, name, n), name)
                        if await w.finish([t], 30):
                            w.viol("hang", f"{name} on a client that is {state} did not end")
                            t.cancel()
                            return
                        o = t.result()
                        if not allowed:
                            w.probe(f"operation on a client that is {state}")
                            if o.kind != "InvalidSession" or o.dur > 0.5:
                                w.viol("state", f"{name} on a {kind} client that is {state} gave {o}, not the session error at once")
                            await asyncio.sleep(0.7)
                            if all_raw() != before[1]:
                                w.viol("wire", f"{name} on a {kind} client that is {state} put bytes on the wire: {session_frames()[before[0]:]}")
                        elif name == "read":
                            if o.kind not in ("ok", "timeout"):
                                w.viol("refused", f"read on an open session gave {o}")
                        else:
                            if not o.ok:
                                w.viol("refused", f"{name} on an open {kind} session gave {o}")
                            await asyncio.sleep(0.7)
                            if len(session_frames()) != before[0] + 1:
                                w.viol("wire", f"{name} on an open session did not reach the gateway")
                if fts:
                    await w.finish(fts, 60)
                await asyncio.sleep(1)
                if kind == "event" and session_frames():
                    w.viol("wire", f"an event session received commands: {session_frames()}")
                for s in gw.sessions:
                    if kind == "event" and any(f.startswith(("*1*", "*#1*", "*2*", "*#2*")) for _, f in s.frames):
                        w.viol("wire", f"an event client put {s.frames} on the wire")
                await w.outcome(c.close(), "close")

            tasks = [w.loop.create_task(one(k, cl)) for k, cl in enumerate(sc["clients"])]
            if await w.finish(tasks, 900):
                w.viol("hang", "the history did not end")
            for t in tasks:
                if t.done() and t.exception():
                    raise t.exception()

        return execute(sc, main)


class P18(Family):
    prop = "P18"
    runs = {"quick": 12500, "thorough": 120000}
    rule = ("Cases: 1-8 lives of one client (opened or failing to open), each with unread frames, unanswered commands and pending "
            "operations when it ends; ended by close (once, twice, by two tasks), EOF, reset, vanishing peer, malformed data or a "
            "second start; reopened at once or later. Also 1-3 openings (connecting or in the handshake) that a close or another "
            "start of another task overtakes.")

    def gen(self, rng, i, tier):
        kind = rng.choice(("cmd", "event", "old", "cmd"))
        sc = {"kind": kind, "net": gen_net(rng), "lives": [], "close_first": rng.choice((0, 0, 1, 2))}
        gen_common(rng, sc)
        if rng.random() < 0.25:
            return self.gen_mid(rng, sc)
        for n in range(rng.choice((1, 2, 2, 3, 5, 8))):
            p = gen_handshake(rng)
            if "password" in p:
                p["password"] = "12345"
            lf = {"plan": p}
            if rng.random() < 0.15:
                p["faults"] = {"greet": {"act": rng.choice(("eof", "rst", "silence", "raw", "frame")), "data": "2323ff" }}
                if p["faults"]["greet"]["act"] == "frame":
                    p["faults"]["greet"]["data"] = own.NACK
            lf["marks"] = rng.randrange(0, 5)            # unsolicited frames of this life
            lf["read"] = rng.randrange(0, 5)             # how many of them are read
            lf["pending"] = rng.choice(("none", "none", "read", "cmd", "query", "loop"))
            if kind == "event" and rng.random() < 0.35:
                lf["stops"] = rng.choice((1, 1, 2, 3))      # the application stops the loop so often, and runs it again
                lf["stopped"] = rng.random() < 0.3          # the last time it does not
            lf["late"] = rng.choice((None, None, 0, 0.05, 0.5, 2.0))   # the gateway answers / speaks this long after the end
            lf["end"] = rng.choice(("close", "close", "close2", "close||", "eof", "rst", "vanish", "garbage", "start"))
            lf["wait"] = rng.choice((0, 0, 0, 0.005, 0.02, 0.5, 6.0))  # between the end and the next life
            if kind != "event" and rng.random() < 0.25:
                lf["stall"] = rng.choice((1.0, 2.0, 6.0, 20.0))        # the network stands still around the end
                lf["sends"] = rng.randrange(0, 5)                      # and so many messages are being sent
                p["net"] = {"high_water": rng.choice((0, 0, 1, 20, 40, 65536))}
            sc["lives"].append(lf)
        return sc

    def gen_mid(self, rng, sc):
        """Openings that are overtaken by close() or by another start()."""
        sc["net"].pop("short_cap", None)
        sc["mid"] = []
        for n in range(rng.choice((1, 1, 2, 3))):
            p = {"n": n, "auth": rng.choice(("none", "open", "sha1", "sha2")), "password": "12345", "delays": slow_steps(rng), "greet_delay": rng.choice((0, 0, 0.3, 2.0))}
            if rng.random() < 0.5:
                p["connect"] = {"delay": rng.choice((0.01, 0.05, 0.2, 1.0))}
            sc["mid"].append({"plan": p, "at": round(rng.choice((0, rng.uniform(0, 0.1), rng.uniform(0, 1.2), rng.uniform(0, 4))), 3),
                              "how": rng.choice(("close", "close", "start")), "wait": rng.choice((0, 0, 0.02, 1.0, 5.0))})
            if rng.random() < 0.5:
                answers = {"none": 2, "open": 3}.get(p["auth"], 4)
                sc["mid"][-1]["tick"] = [rng.choice((1, 2, 3, 4, 5, answers, answers, answers)), rng.choice((0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7))]
        return sc

    def run_mid(self, sc):
        kind = sc.get("kind", "cmd")

        async def main(w):
            mid = sc["mid"]
            last = {"n": len(mid), "auth": "none"}
            gw = SimGateway(w.sim, plans=[a["plan"] for a in mid] + [last], net=sc.get("net", {}), seed=sc["seed"])
            c = make_client(gw, kind, "12345")
            starts, shut, overtaken = [], {}, set()
            for n, a in enumerate(mid):
                t = w.spawn(c.start(), f"start {n}")
                starts.append(t)
                closing = w.loop.create_future()

                async def shut_down(t):
                    o = await w.outcome(c.close(), "close")
                    if not t.done():
                        overtaken.add(t)
                    return o

                def now(a=a, closing=closing, t=t):
                    if not closing.done():
                        w.sim.count("fault", f"opening overtaken by {a['how']}" if not t.done() else "opened in time")
                        closing.set_result(w.loop.create_task(shut_down(t)) if a["how"] == "close" else None)

                if a.get("tick"):
                    w.sim.on_recv(a["tick"][0], a["tick"][-1], now)
                else:
                    w.sim.after(a["at"], now)
                await asyncio.wait([closing], timeout=12)
                now()
                if a["how"] == "close":
                    o = await closing.result()
                    if not o.ok:
                        w.viol("close-error", f"close() while the client was being opened gave {o}")
                    for k in range(n + 1):
                        shut.setdefault(k, w.sim.t)
                    o = await w.outcome(c.read_message(timeout=1), "read")
                    if o.kind != "InvalidSession":
                        w.viol("not-final", f"read after close gave {o}")
                    await asyncio.sleep(a["wait"])
            t = w.spawn(c.start(), "last start")
            if await w.finish(starts + [t], 60):
                w.viol("hang", "start() has not ended")
                return
            o = t.result()
            if not o.ok:
                w.viol("no-reopen", f"the last start() against a healthy gateway ended with {o}")
                return
            await asyncio.sleep(3)
            for k, x in enumerate(starts):
                if x.result().kind == "other":
                    w.viol("error", f"start {k}, overtaken, ended with {x.result()}")
                if x in overtaken and x.result().ok:
                    w.viol("not-final", f"start {k} was under way when the client was closed and reported success afterwards: {x.result()}")
            by = {s.plan.get("n"): s for s in gw.sessions}
            for k, at in shut.items():
                if k in by and any(x[0] > at + 0.001 for x in by[k].conn.tx_log):
                    w.viol("after-end", f"after close() at {at:.3f}, opening {k} went on: the gateway received {[f for _, f in by[k].frames]}")
            s = by.get(len(mid))
            left = [x.plan.get("n") for x in gw.sessions if x.conn.client_open]
            if s is None or left != [len(mid)]:
                w.viol("not-closed", f"after the last of {len(mid) + 1} openings the open connections are those of {left}")
                return
            if not s.granted or not await probe_session(w, c, s, kind, 1234):
                w.viol("stale", "the session opened last does not carry frames")
            await w.outcome(c.close(), "close")
            await asyncio.sleep(3)
            for x in gw.sessions:
                if x.conn.client_open or x.conn.sock.closed != 1:
                    w.viol("not-closed", f"the connection of opening {x.plan.get('n')} was closed {x.conn.sock.closed} times")
            w.probe("overtaken openings judged")

        return execute(sc, main)

    def run(self, sc):
        import pyown.items.lighting as pl

        if sc.get("mid"):
            return self.run_mid(sc)
        kind = sc.get("kind", "cmd")

        async def main(w):
            plans = [lf.get("plan", {}) for lf in sc["lives"]]
            gw = SimGateway(w.sim, plans=plans, net=sc.get("net", {}), seed=sc["seed"])
            c = make_client(gw, kind, "12345")
            events = []

            async def cb(item, on):
                events.append(str(item.where))

            pl.Light.on_status_change(cb)
            for _ in range(sc.get("close_first", 0)):
                o = await w.outcome(c.close(), "close")
                if not o.ok:
                    w.viol("close-error", f"closing a client never opened gave {o}")
            ended = []          # (session, frames it had received when its life ended, tolerance)
            for n, lf in enumerate(sc["lives"]):
                o = await w.outcome(c.start(), f"start life {n}")
                s = gw.last
                await asyncio.sleep(1)
                for s0, have, name, allowed, until in ended:
                    more = [f for _, f in s0.frames][len(have):]
                    if any(f not in allowed for f in more):
                        w.viol("after-end", f"after {name} the old session received {more}")
                    if s0.conn.client_open and w.sim.t > until:
                        w.viol("not-closed", f"after {name} and a new start the old connection is still open")
                if lf.get("plan", {}).get("faults"):
                    if o.ok:
                        raise Skip("a faulty gateway granted the session")
                    ended.append((s, [f for _, f in s.frames], "a failed start", (), 0))
                    continue
                if not o.ok or not s.granted:
                    w.viol("no-reopen", f"life {n} could not be opened: {o} (previous end: {sc['lives'][n - 1].get('end') if n else None})")
                    return
                marks = [str(2000 + 100 * n + j) for j in range(lf.get("marks", 0))]
                pend, sends, until = [], [], 0
                if kind == "event":
                    events.clear()
                    lt = w.spawn(c.loop(), "loop")
                    for m in marks:
                        s.send_text(own.normal(1, 1, m))
                    await asyncio.sleep(2)
                    if events != marks:
                        w.viol("stale", f"life {n}: the gateway reported {marks}, the callbacks saw {events}")
                    if lt.done():
                        w.viol("stale", f"life {n}: the event loop ended at once: {lt.result()}")
                    for k in range(lf.get("stops", 0)):
                        w.sim.count("fault", "event loop stopped by the application")
                        lt.cancel()
                        if await w.finish([lt], 5):
                            w.viol("pending", f"life {n}: the cancelled event loop did not end")
                            break
                        if k + 1 == lf["stops"] and lf.get("stopped"):
                            break
                        lt = w.spawn(c.loop(), "loop again")
                        m = str(2000 + 100 * n + 50 + k)
                        marks.append(m)
                        s.send_text(own.normal(1, 1, m))
                        await asyncio.sleep(2)
                        if events != marks:
                            w.viol("stale", f"life {n}: the gateway reported {marks}, the callbacks saw {events} (the loop was stopped and run again)")
                        if lt.done():
                            w.viol("stale", f"life {n}: the event loop run again ended at once: {lt.result()}")
                    if not lt.done():
                        pend.append(lt)
                else:
                    s.on_frame = lambda s_, f: s_.send_text(own.ACK)
                    o = await w.outcome(pl.Light(c, str(3000 + n)).turn_on(), "first command")
                    if not o.ok:
                        w.viol("stale", f"life {n}: the first command was acknowledged by the gateway, the caller got {o}")
                    for m in marks:
                        s.send_text(own.normal(1, 1, m))
                    await asyncio.sleep(1)
                    for j in range(min(lf.get("read", 0), len(marks))):
                        o = await w.outcome(c.read_message(timeout=2), "read")
                        if not o.ok or str(o.value) != own.normal(1, 1, marks[j]):
                            w.viol("stale", f"life {n}: expected the frame for {marks[j]}, got {o}")
                    if lf.get("read", 0) >= len(marks):
                        o = await w.outcome(c.read_message(timeout=1), "read")
                        if o.kind != "timeout":
                            w.viol("stale", f"life {n}: nothing is left to read, got {o}")
                    late = lf.get("late")
                    s.on_frame = (lambda s_, f: None) if late is None else (lambda s_, f, late=late: s_.send_later(late, own.ACK))
                    what = lf.get("pending", "none")
                    if lf.get("stall"):
                        s.conn._stall(lf["stall"])
                        until = w.sim.t + lf["stall"] + 1
                        for j in range(lf.get("sends", 0)):
                            f = own.normal(1, 1, 6000 + 10 * n + j)
                            sends.append((f, w.spawn(c.send_message(build_message(f)), "send on a stalled network")))
                    if what == "read":
                        if lf.get("read", 0) >= len(marks):
                            pend.append(w.spawn(c.read_message(timeout=20), "pending read"))
                    elif what == "cmd":
                        pend.append(w.spawn(pl.Light(c, str(4000 + n)).turn_on(), "pending command"))
                    elif what == "query":
                        async def q():
                            return [x async for x in pl.Light(c, str(4000 + n)).get_status()]
                        pend.append(w.spawn(q(), "pending query"))
                    await asyncio.sleep(0.4 if s.conn.opts.get("jitter") else 0.25)
                if w.viols:
                    return
                have = [f for _, f in s.frames]
                end = lf.get("end", "close")
                # what the network had not taken yet may still leave, a send that waits may not
                allowed = [f for f, t in sends if t.done() or not end.startswith("close")]
                if lf.get("stall") and lf.get("pending") in ("cmd", "query"):
                    allowed += [own.normal(1, 1, 4000 + n), f"*#1*{4000 + n}##"]
                pend += [t for f, t in sends if not t.done()]
                if lf.get("late") is not None:
                    w.sim.after(lf["late"], s.send_text, own.normal(1, 0, 5000 + n))
                    w.sim.after(lf["late"], s.send_text, own.ACK)
                if end.startswith("close"):
                    if end == "close||":
                        os_ = await asyncio.gather(*[w.outcome(c.close(), "close") for _ in range(2)])
                    else:
                        os_ = [await w.outcome(c.close(), "close") for _ in range(2 if end == "close2" else 1)]
                    for o in os_:
                        if not o.ok or o.dur > 1:
                            w.viol("close-error", f"close() gave {o}")
                    for name, co in (("send", c.send_message(build_message("*1*1*12##"))), ("read", c.read_message(timeout=1))):
                        o = await w.outcome(co, name)
                        if o.kind != "InvalidSession":
                            w.viol("not-final", f"{name} after close gave {o}")
                elif end in ("eof", "rst", "vanish"):
                    s.drop(end)
                elif end == "garbage":
                    s.conn.send(b"xx\xff##")
                ended.append((s, have, end, allowed, until))
                if lf.get("wait"):
                    await asyncio.sleep(lf["wait"])
                if end == "start" and n + 1 < len(sc["lives"]):
                    waiting = [f for f, t in sends if not t.done()]
                    allowed[:] = [f for f in allowed if f not in waiting]
                if n + 1 < len(sc["lives"]):
                    # pending operations of this life end without anything of the next one
                    w.loop.create_task(self.watch(w, pend, n, marks))
                elif end != "start" and not (end == "vanish" and kind == "event"):
                    await self.watch(w, pend, n, marks)
            if sc["lives"]:
                s = gw.last
                await w.until(max(ended[-1][4] if ended else 0, w.sim.t) + 3)
                if ended and ended[-1][2].startswith("close"):
                    if s.conn.client_open or s.closed_at is None or s.conn.sock.closed != 1:
                        w.viol("not-closed", f"3 s after close the connection is open={s.conn.client_open}, closed {s.conn.sock.closed} times, "
                                             f"the gateway saw the end at {s.closed_at}")
                o = await w.outcome(c.close(), "close")
                o = await w.outcome(c.close(), "close")
                if not o.ok:
                    w.viol("close-error", f"repeated close gave {o}")
                await asyncio.sleep(30)
                for s0, have, name, allowed, _ in ended:
                    more = [f for _, f in s0.frames][len(have):]
                    if any(f not in allowed for f in more) or len(set(more)) != len(more):
                        w.viol("after-end", f"after {name} the session received {more}")
                for k, s0 in enumerate(gw.sessions):
                    mine = {str(3000 + k), str(4000 + k)} | {str(6000 + 10 * k + j) for j in range(10)}
                    for _, f in s0.frames:
                        a = re.search(r"\*([346]\d{3})##$", f)
                        if a and re.match(r"\*#?1\*", f) and a[1] not in mine:
                            w.viol("leak", f"the session of life {k} received {f!r}, which was sent in another life")
                for s0 in gw.sessions:
                    if s0.conn.sock.closed != 1:
                        w.viol("not-closed", f"a connection was closed {s0.conn.sock.closed} times")

        return execute(sc, main)

    async def watch(self, w, pend, n, marks):
        left = await w.finish(pend, 50)
        if left:
            w.viol("pending", f"an operation pending when life {n} ended never finished")
        for t in pend:
            if t.done():
                o = t.result()
                if o.kind == "other":
                    w.viol("pending", f"an operation pending when life {n} ended gave {o}")
                if o.ok and o.value is not None and kind_of(o.value) not in (None, str(5000 + n)):
                    w.viol("leak", f"an operation pending when life {n} ended returned {o} of another life")


def kind_of(v):
    """Address carried by what a pending operation returned, if any."""
    if isinstance(v, list):
        return None
    try:
        return str(v.where)
    except Exception:
        return None
