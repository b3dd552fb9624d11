"""P22: messages are values, whoever receives, compares, keeps, shares and sends them."""
import asyncio
import random
import re
from collections import Counter

from .. import own
from .common import *  # noqa
from .common import Family


def variants(rng, f):
    """A frame that differs a little from f."""
    r = rng.randrange(0, 8)
    if r == 0:
        return re.sub(r"\d+", lambda m: "0" + m[0], f, count=1)
    if r == 1:
        i = [k for k, ch in enumerate(f) if ch.isdigit()]
        if i:
            k = rng.choice(i)
            return f[:k] + str((int(f[k]) + 1) % 10) + f[k + 1:]
    if r == 2:
        return f[:-2] + "*##" if not f.endswith("###") else f
    if r == 3:
        return f[:-2] + "*0##"
    if r == 4:
        return f[:-2] + "#1##"
    if r == 5 and f.startswith("*#"):
        t = f[1:-2].split("*")
        if len(t) > 3:
            t[2] = t[2][1:] if t[2].startswith("#") else "#" + t[2]
            return "*" + "*".join(t) + "##"
    if r == 6:
        t = f[1:-2].split("*")
        if len(t) > 1:
            t[-1], t[-2] = t[-2], t[-1]
            if not t[-1].endswith("#") and not t[0].startswith("##"):
                return "*" + "*".join(t) + "##"
    if r == 7:
        return rng.choice((own.ACK, own.NACK, "*1*1*11##", "*#1*11*#1*5*6##", "*#1*11*1*5*6##", "*#1*11*1##", "*#1*11##", "*9*1*11##"))
    return f[:-2] + str(rng.randrange(10)) + "##"


class P22(Family):
    prop = "P22"
    runs = {"quick": 6000, "thorough": 80000}
    rule = ("Cases: 1-3 sessions receive frames out of a pool of alike texts, cut and delayed anyhow; several tasks read them, count and look them "
            "up by comparison, change the lists obtained from them, and send received and self-built messages again, several at once and into stalls.")

    def gen(self, rng, i, tier):
        sc = {"net": gen_net(rng), "sessions": []}
        gen_common(rng, sc)
        sc.pop("idle_open", None)
        pool = []
        for _ in range(rng.choice((1, 2, 4))):
            f = gen_frame(rng) if rng.random() < 0.85 else gen_odd(rng)
            pool.append(f)
            for _ in range(rng.choice((0, 1, 2, 4))):
                f = variants(rng, rng.choice(pool))
                if re.fullmatch(r"\*[0-9*#]*##", f) and f.count("##") == 1 and "##" not in f[:-2] + "#":
                    pool.append(f)
        sc["pool"] = pool
        for _ in range(rng.choice((1, 1, 2, 3))):
            s = {"plan": {"net": {"high_water": rng.choice((0, 20, 300))}} if rng.random() < 0.3 else {}, "frames": []}
            for _ in range(rng.choice((0, 2, 5, 12, 25))):
                f = rng.choice(pool)
                it = {"f": f, "gap": gen_gap(rng)}
                if rng.random() < 0.4:
                    it["cuts"] = gen_cuts(rng, f)
                s["frames"].append(it)
            s["readers"] = rng.choice((1, 1, 2, 3))
            s["tamper"] = rng.random() < 0.6
            s["again"] = rng.choice((0, 0, 0.3, 1.0))
            s["hold"] = rng.choice((0, 0.5, 5.0))
            if rng.random() < 0.3:
                s["stall"] = [rng.choice((0, 0.5, 2.0)), rng.choice((1.0, 6.0, 20.0))]
            sc["sessions"].append(s)
        sc["shared"] = [{"f": rng.choice(pool), "how": rng.choice(("class", "parse", "template")), "to": rng.randrange(len(sc["sessions"])),
                         "at": rng.choice((0, 0, 0.01, 0.5, 2.0))} for _ in range(rng.choice((0, 2, 5, 10)))]
        return sc

    @staticmethod
    def tamper(m, rng):
        """Everything an application can get hold of and change."""
        got = [m.tags]
        for n in ("where", "what", "dimension"):
            x = getattr(m, n, None)
            if x is not None:
                got.append(x.parameters)
        for v in getattr(m, "values", ()):
            got.append(v.parameters)
        k = 0
        for x in got:
            if isinstance(x, list):
                k += 1
                r = rng.randrange(4)
                if r == 0:
                    x.clear()
                elif r == 1:
                    x.append("99")
                elif r == 2 and x:
                    x[0] = "7"
                else:
                    x.reverse()
                    x += ["1", "2"]
        return k

    def compare(self, w, m, text, others):
        """m, which was the frame text, against messages built here."""
        import pyown.messages as pm

        def same(a, b, what):
            try:
                if not (a == b) or not (b == a) or a != b or b != a:
                    w.viol("unequal", f"{text!r} {what} is not equal")
                elif hash(a) != hash(b):
                    w.viol("hash", f"{text!r} {what} is equal with another hash")
            except Exception as e:  # noqa
                w.viol("unusable", f"{text!r} {what} cannot be compared and hashed: {type(e).__name__}: {e}")

        same(m, m, "with itself")
        same(m, pm.parse_message(text), "with the same text parsed")
        if own.regular(text):
            same(m, build_message(text), "with the same message built by the application")
            for x in self.by_items(text):
                same(m, x, "with the same message built by an item")
            if m.type != pm.MessageType.GENERIC:
                g = pm.GenericMessage(text[1:-2].split("*"))
                if g == m or m == g or not (g != m):
                    w.viol("equal-kinds", f"{text!r} is equal to a generic message of that text")
        for o in others:
            if o == text:
                continue
            x = pm.parse_message(o)
            try:
                if m == x or x == m or not (m != x):
                    w.viol("equal", f"{text!r} is equal to {o!r}")
            except Exception as e:  # noqa
                w.viol("unusable", f"{text!r} cannot be compared with {o!r}: {type(e).__name__}: {e}")
        for x in (text, None, 7, (text,)):
            if m == x:
                w.viol("equal", f"{text!r} is equal to {x!r}")

    def by_items(self, text):
        from pyown.items.lighting import Light
        from pyown.tags import Value

        kind, f = own.classify(text)
        if f.get("who") != "1":
            return
        it = Light(None, f["where"])
        if kind == "NORMAL":
            yield it.create_normal_message(f["what"])
            if f["what"] == "1":
                from pyown.items.lighting.base import WhatLight
                yield it.create_normal_message(WhatLight.ON)
        elif kind == "STATUS REQUEST":
            yield it.create_status_message()
        elif kind == "DIMENSION WRITING":
            from pyown.tags import Dimension
            yield it.create_dimension_writing_message(Dimension(f["dimension"]), *[Value(v) for v in f["values"]])
        elif kind == "DIMENSION REQUEST":
            from pyown.tags import Dimension
            yield it.create_dimension_request_message(Dimension(f["dimension"]))

    def run(self, sc):
        async def main(w):
            import pyown.messages as pm
            gw = SimGateway(w.sim, plans=[s.get("plan", {}) for s in sc["sessions"]], net=sc["net"], seed=sc["seed"])
            rng = random.Random(sc["seed"])
            clients, sessions = [], []
            for _ in sc["sessions"]:
                clients.append(await open_client(w, gw, "cmd", "12345"))
                sessions.append(gw.last)
            count, kept, sent = Counter(), [], [[] for _ in clients]
            received = [[] for _ in clients]
            for k, s in enumerate(sessions):
                s.on_frame = lambda s_, f, k=k: received[k].append(f)

            async def send(k, m, text):
                sent[k].append(text)
                o = await w.outcome(clients[k].send_message(m), "send")
                if not o.ok:
                    raise Skip("a send failed")

            async def reader(k, spec):
                while True:
                    o = await w.outcome(clients[k].read_message(timeout=30), "read")
                    if not o.ok:
                        return
                    m = o.value
                    text = str(m)
                    kept.append((text, m))
                    try:
                        count[m] += 1
                    except Exception as e:  # noqa
                        w.viol("unusable", f"{text!r} cannot be counted: {type(e).__name__}: {e}")
                    if spec["tamper"]:
                        w.sim.count("fault", "lists obtained from a message changed", self.tamper(m, rng))
                        if str(m) != text:
                            w.viol("changed", f"{text!r} is {str(m)!r} after the lists obtained from it were changed")
                    if rng.random() < spec["again"]:
                        await asyncio.sleep(spec["hold"])
                        await send(rng.randrange(len(clients)), m, text)

            built, template = {}, []

            async def share(o):
                await asyncio.sleep(o["at"])
                key = o["f"], o["how"]
                if o["how"] == "template":
                    # one list of tags, filled in again for each message the application builds
                    template[:] = o["f"][1:-2].split("*")
                    built[key] = m = pm.GenericMessage(template)
                    w.sim.count("fault", "list a message was built from used again")
                    await asyncio.sleep(0)
                    await send(o["to"], m, o["f"])
                    template.append("5")
                    return
                if key not in built:
                    built[key] = build_message(o["f"], o["how"] if own.regular(o["f"]) else "parse")
                await send(o["to"], built[key], o["f"])

            t0 = w.sim.t
            for s, spec in zip(sessions, sc["sessions"]):
                send_plan(w, s, spec["frames"], t0)
                if spec.get("stall"):
                    w.sim.after(spec["stall"][0], lambda s=s, spec=spec: s.conn._stall(spec["stall"][1]))
            tasks = [w.loop.create_task(reader(k, spec)) for k, spec in enumerate(sc["sessions"]) for _ in range(spec["readers"])]
            tasks += [w.loop.create_task(share(o)) for o in sc["shared"]]
            if await w.finish(tasks, 500):
                raise Skip("operations did not end")
            for t in tasks:
                t.result()
            await asyncio.sleep(60)
            for k in range(len(clients)):
                if Counter(received[k]) != Counter(sent[k]):
                    w.viol("sent-changed", f"session {k}: sent {list((Counter(sent[k]) - Counter(received[k])).elements())[:4]}, "
                                           f"the gateway received {list((Counter(received[k]) - Counter(sent[k])).elements())[:4]} instead")
            texts = Counter(t for t, _ in kept)
            # judged against the frames only when they were read as sent (P01 decides that)
            if texts != Counter(it["f"] for spec in sc["sessions"] for it in spec["frames"]):
                raise Skip("the frames were not read as sent")
            for t, n in texts.items():
                try:
                    if count[pm.parse_message(t)] != n:
                        w.viol("count", f"{t!r} was received {n} times, counting by comparison gives {count[pm.parse_message(t)]}")
                except TypeError as e:
                    w.viol("unusable", f"{t!r} cannot be looked up: {e}")
            for t, m in kept:
                if str(m) != t:
                    w.viol("changed", f"a message read as {t!r} became {str(m)!r}")
            for (t, _), m in built.items():
                if str(m) != t:
                    w.viol("changed", f"a message built as {t!r} became {str(m)!r}")
            for t, m in list(dict((t, m) for t, m in kept).items()) + [(t, m) for (t, how), m in built.items() if how != "template"]:
                if str(m) == t:
                    self.compare(w, m, t, sorted(set(sc["pool"])))
            w.probe("messages judged", len(kept))

        return execute(sc, main)
