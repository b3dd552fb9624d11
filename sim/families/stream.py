"""P01 inbound stream integrity, P02 malformed input contained, P03 outgoing integrity."""
import asyncio

from .common import *  # noqa
from .common import EPS, Family


class P01(Family):
    prop = "P01"
    runs = {"quick": 20000, "thorough": 200000}
    rule = ("Cases: 1-30 frames of every kind (ACK, NACK, normal, status, dimension request/writing/response, unknown system or "
            "structure), explicit cut points and delays per frame, 1-3 concurrent readers whose reads time out or are cancelled.")

    def gen(self, rng, i, tier):
        sc = {"kind": rng.choice(("event", "cmd", "old")), "plan": gen_handshake(rng), "net": gen_net(rng)}
        gen_common(rng, sc)
        fr = []
        for _ in range(rng.choice((1, 2, 3, 5, 8, 13, 30))):
            f = gen_frame(rng) if rng.random() < 0.9 else gen_odd(rng)
            if rng.random() < 0.02 and not sc["net"].get("recv_cap"):
                f = rng.choice((f"*{digits(rng, 6000)}##", f"*#1*12*1*{digits(rng, 20000)}*5##", "*#1*12*1" + "*77" * 3000 + "##",
                                f"*{digits(rng, 70000)}##" if sc["net"].get("seg") != 3 else f"*{digits(rng, 9000)}##"))
            it = {"f": f, "gap": gen_gap(rng)}
            if rng.random() < 0.6:
                it["cuts"] = gen_cuts(rng, f)
                if rng.random() < 0.5:
                    it["delays"] = [rng.choice((0, 0, 0.01, 0.3, 1.0, 4.0, 6.0)) for _ in range(min(len(it["cuts"]) + 1, 6))]
                if rng.random() < 0.02:
                    it["delays"] = [0, rng.choice((20, 70, 400, 4000, 90000))]
            fr.append(it)
        gen_flood(rng, fr, sc["net"])
        sc["frames"] = long_silence(rng, fr)
        if rng.random() < 0.2:
            sc["eager"] = rng.randrange(1, 5)       # the first frames come together with the grant of the session
        sc["start"] = rng.choice((0, 0, 0.5, 3.0))
        readers = []
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            reads = []
            for _ in range(rng.randrange(0, 14)):
                r = {"timeout": rng.choice((0, 0.001, 0.5, 1, 2, 5, 5, None)), "pause": rng.choice((0, 0, 0, 0.01, 1.0, 5.0))}
                if rng.random() < 0.3:
                    r["cancel"] = gen_cancel(rng, (0, 0.001, 0.01, 0.1, 0.5, 1.0, 2.0))
                reads.append(r)
            readers.append({"start": rng.choice((0, 0, 0.01, 1.0)), "reads": reads})
        sc["readers"] = readers
        if rng.random() < 0.2:
            sc["blocks"] = [[round(rng.uniform(0, 12), 2), rng.choice((0.5, 3.0, 6.0))] for _ in range(rng.randrange(1, 4))]
        return sc

    def run(self, sc):
        async def main(w):
            gw = SimGateway(w.sim, plans=[sc.get("plan", {})], net=sc.get("net", {}), seed=sc["seed"])
            eager = sc["frames"][:sc.get("eager", 0)]

            def on_grant(s):
                for it in eager:
                    s.send_text(it["f"], it.get("cuts"), it.get("delays"))
                    burst(s, it)
                    w.probe("frames sent together with the grant")

            gw.on_grant = on_grant
            c = await open_client(w, gw, sc.get("kind", "cmd"))
            s = gw.last
            t_start = w.sim.t
            end = send_plan(w, s, sc["frames"][len(eager):], t_start + sc.get("start", 0))
            got = []

            async def read(timeout):
                m = await c.read_message(timeout=timeout)
                got.append(m)
                w.log("app", "read", str(m))
                return m

            stop = []
            live = set()

            async def reader(rd):
                await asyncio.sleep(rd.get("start", 0))
                for r in rd.get("reads", ()):
                    if stop:
                        return
                    t = w.spawn(read(r.get("timeout")), "read", w.when(r))
                    live.add(t)
                    o = await t
                    live.discard(t)
                    if o.kind in ("other", "InvalidSession", "InvalidMessage", "InvalidTag"):
                        w.viol("read-error", f"a read of valid data failed: {o}")
                    if r.get("pause"):
                        await asyncio.sleep(r["pause"])

            readers = [w.loop.create_task(reader(rd)) for rd in sc.get("readers", ())]
            await w.until(max(end, t_start) + 40)
            while s.conn.inflight or s.conn.rx:
                await asyncio.sleep(5)
                if w.sim.t > max(end, t_start) + 2000 + sum(sum(it.get("delays", ())) for it in sc["frames"]):
                    break
            stop.append(1)
            for t in list(live):
                t.cancel()
            if readers and await w.finish(readers, 60):
                w.viol("stuck", "a cancelled read did not end")
            await asyncio.sleep(0.1)
            # what is still unread must be there for an ordinary reader
            want = [it["f"] for it in sc["frames"] for _ in range(max(1, it.get("rep", 1)))]
            for _ in range(len(want) + 3):
                o = await w.outcome(read(2), "drain")
                if not o.ok:
                    if o.kind != "timeout":
                        w.viol("read-error", f"a read on a healthy idle session ended with {o} instead of a timeout")
                    break
            texts = []
            for m in got:
                try:
                    texts.append(str(m))
                except Exception as e:  # noqa
                    texts.append(f"<{type(e).__name__}>")
            if texts != want:
                k = 0
                while k < min(len(texts), len(want)) and texts[k] == want[k]:
                    k += 1
                w.viol("sequence", f"{len(want)} frames sent, {len(texts)} messages read; first difference at {k}: "
                                   f"read {texts[k:k + 3]}, sent {want[k:k + 3]}")
            else:
                for m, t in zip(got, want):
                    d = message_diff(m, t)
                    if d:
                        w.viol("fields", d)
                        break
            w.probe("messages read", len(got))

        return execute(sc, main)


GARBAGE = ["40", "ff", "c3a9", "00", "2a312a3178", "3c68746d6c3e", "2a312a312a31322378", "2a2a23783131", "31322323",
           "2a312a416263232323"]


class P02(Family):
    prop = "P02"
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: valid frames with malformed bytes injected at a chosen point (foreign characters, non-ASCII, frames without "
            "start, adversarially long frames), cut anywhere, while raw reads, the event loop or item commands are in progress.")

    def garbage(self, rng, cap):
        r = rng.random()
        if rng.random() < 0.3:
            # an ordinary frame with one foreign byte inside, white space and control characters too
            f = gen_frame(rng)
            while len(f) > 200:
                f = gen_frame(rng)
            bad = chr(rng.choice([9, 10, 11, 12, 13, 32] * 12 + [b for b in range(256) if b not in b"0123456789*#"]))
            k = rng.choice((len(f) - 2, rng.randrange(1, len(f) - 1), rng.randrange(1, len(f) - 1)))
            g = f[:k] + bad + f[k + rng.choice((0, 0, 1)) if k < len(f) - 2 else k:]
            return g.encode("latin-1").hex()
        bad = rng.choice(["@", "x", "\u00e9", "\x00", "<", "A", "\x80", "\xff", "?", "-", "."])
        if r < 0.15:
            g = bad * rng.randrange(1, 20)
        elif r < 0.3:
            g = "*1*1" + bad + "*12##"
        elif r < 0.4:
            g = bad + "##"
        elif r < 0.5:
            g = rng.choice(["1*1*12##", "11##", "0*12##"])
        elif r < 0.55:
            # one long field and a foreign character at the end
            f = ["1", "2", "12"][:rng.randrange(1, 4)]
            f[rng.randrange(len(f))] = long_field(rng, min(cap, rng.choice((40, 2000))))
            g = "*" + rng.choice(("", "#")) + "*".join(f) + bad + "##"
        elif r < 0.6:
            g = "*#1*12*1*" + bad + bad + "##"
        elif r < 0.7:
            g = "HTTP/1.1 400 Bad Request\r\n\r\n"
        elif r < 0.85:
            n = min(cap, rng.choice((2000, 20000, 60000)))
            return ["rep", rng.choice(["*", "*1", "*#", "1#", "*1#2", "*#1*2", "0"]), n, bad + "##"]
        elif r < 0.9:
            n = min(cap, rng.choice((2000, 20000)))
            return ["rep", "*" + digits(rng, 3), n, bad]
        else:
            g = "".join(chr(rng.randrange(128, 256)) for _ in range(rng.randrange(1, 40))) + rng.choice(["", "##"])
        return g.encode("latin-1").hex()

    def gen(self, rng, i, tier):
        mode = rng.choice(("read", "read", "read", "loop", "cmd"))
        sc = {"mode": mode, "plan": gen_handshake(rng), "net": gen_net(rng)}
        gen_common(rng, sc)
        tiny = sc["net"].get("seg") == 3 or sc["net"].get("recv_cap")
        items = []
        n = rng.randrange(1, 10)
        gpos = rng.randrange(0, n + 1)
        for k in range(n):
            if k == gpos:
                g = self.garbage(rng, 2000 if tiny else 60000)
                it = {"g": g, "gap": gen_gap(rng)}
                L = len(expand(g))
                if L < 5000 and rng.random() < 0.4 and L > 1:
                    it["cuts"] = sorted(rng.randrange(1, L) for _ in range(rng.randrange(1, 4)))
                elif L >= 5000:
                    it["cuts"] = [rng.randrange(1, L) for _ in range(rng.randrange(0, 3))]
                items.append(it)
            if mode == "loop":
                f = own.normal(1, rng.choice((0, 1)), 100 + k)
            else:
                f = gen_frame(rng) if rng.random() < 0.8 else gen_odd(rng)
                if rng.random() < 0.12:
                    n_ = rng.choice((40, 1500)) if tiny else rng.choice((40, 40, 4000, 20000))
                    t = [digits(rng, 2) for _ in range(rng.randrange(1, 6))]
                    t[rng.randrange(len(t))] = long_field(rng, n_)
                    for j in (0, 2):
                        if j < len(t) and rng.random() < 0.5:
                            t[j] = "#" + t[j]
                    f = "*" + "*".join(t) + "##"
                elif rng.random() < 0.1 and len(f) < 200:
                    f = "*" + "*".join(digits(rng, 2) for _ in range(100 if tiny else rng.choice((500, 5000)))) + "##"
            it = {"f": f, "gap": gen_gap(rng)}
            if rng.random() < 0.4:
                it["cuts"] = gen_cuts(rng, f)
            items.append(it)
        if gpos >= n:
            items.append({"g": self.garbage(rng, 2000), "gap": gen_gap(rng), "cuts": []})
        sc["items"] = items
        sc["timeouts"] = [rng.choice((0.5, 1, 2, 5)) for _ in range(rng.randrange(1, 8))]
        sc["start"] = rng.choice((0, 0.5))
        if mode == "cmd":
            sc["cmds"] = [{"at": round(rng.uniform(0, 6), 2)} for _ in range(rng.randrange(1, 4))]
        return sc

    def run(self, sc):
        import pyown.items.lighting as pl

        mode = sc.get("mode", "read")

        async def main(w):
            gw = SimGateway(w.sim, plans=[sc.get("plan", {})], net=sc.get("net", {}), seed=sc["seed"])
            c = await open_client(w, gw, "event" if mode == "loop" else "cmd")
            s = gw.last
            t_start = w.sim.t
            end = send_plan(w, s, sc["items"], t_start + sc.get("start", 0))
            before, after, seen = [], [], False
            for it in sc["items"]:
                if "f" in it:
                    (after if seen else before).append(it["f"])
                else:
                    seen = True
            got = []

            def judge():
                k = len(before)
                if mode != "cmd":
                    if got[:k] != before[: len(got)] or len(got) < k:
                        w.viol("valid-lost", f"frames received before the malformed data: {before}; delivered: {got[:k + 3]}")
                        return
                    rest = iter(after)
                    for g in got[k:]:
                        if not any(g == a for a in rest):
                            w.viol("invented", f"{g[:200]!r} was delivered, the gateway never sent it as a frame (or not in that place)")
                            return
                else:
                    for g in got:
                        if g not in before and g not in after and g not in (own.ACK, own.NACK):
                            w.viol("invented", f"{g[:200]!r} was delivered, the gateway never sent it")
                            return

            if mode == "read":
                async def read(timeout):
                    m = await c.read_message(timeout=timeout)
                    got.append(str(m))
                    w.log("app", "read", str(m)[:60])

                ts = list(sc.get("timeouts", ())) + [5] * (len(sc["items"]) + 3)
                while ts:
                    to = ts.pop(0)
                    o = await w.outcome(read(to), "read")
                    if o.dur > to + 0.5:
                        w.viol("overdue", f"read with limit {to} s took {o.dur:.2f} s")
                    if o.kind == "other":
                        w.viol("uncontained", f"malformed data surfaced from a read as {o}")
                        break
                    if not o.ok and w.sim.t > end + 30 and not s.conn.inflight:
                        break
                    if not o.ok and o.dur < 0.01:
                        await asyncio.sleep(0.5)
                    if not ts and w.sim.t < end + 30:
                        ts.append(5)
            elif mode == "loop":
                async def cb(item, on):
                    got.append(own.normal(1, 1 if on else 0, item.where))
                    w.log("cb", "status", str(item.where))

                pl.Light.on_status_change(cb)
                lt = w.spawn(c.loop(), "loop")
                await w.until(end + 5)
                while s.conn.inflight and w.sim.t < end + 60:
                    await asyncio.sleep(1)
                if lt.done() and lt.result().kind == "other":
                    w.viol("uncontained", f"malformed data ended the event loop with {lt.result()}")
                await c.close()
                if await w.finish([lt], 10):
                    w.viol("hang", "the event loop did not end after the client was closed")
            else:
                s.on_frame = lambda s_, f: s_.send_later(0.2, own.ACK)
                tasks = []
                for k, cm in enumerate(sc.get("cmds", ())):
                    async def one(k=k, cm=cm):
                        await asyncio.sleep(cm["at"])
                        return await w.outcome(pl.Light(c, str(200 + k)).turn_on(), f"cmd{k}")

                    tasks.append(w.loop.create_task(one()))
                pend = await w.finish(tasks, 10 + 6 * (len(tasks) + 1) + end)
                if pend:
                    w.viol("hang", f"{len(pend)} commands never finished after malformed data")
                for t in tasks:
                    if t.done():
                        o = t.result()
                        if o.kind == "other":
                            w.viol("uncontained", f"malformed data surfaced from a command as {o}")
                        if o.dur > 6.0 * len(tasks) + 1:
                            w.viol("overdue", f"a command took {o.dur:.1f} s")
                # drain what is left
                for _ in range(len(sc["items"]) + 2):
                    o = await w.outcome(c.read_message(timeout=1), "read")
                    if o.ok:
                        got.append(str(o.value))
                    else:
                        break
            judge()
            w.probe("connection closed after malformed data" if not s.conn.client_open else "connection kept after malformed data")

        return execute(sc, main)


class P03(Family):
    prop = "P03"
    runs = {"quick": 15000, "thorough": 150000}
    rule = ("Cases: 1-4 concurrent sending tasks, 1-40 messages of every kind, window stalls, short writes, low and default write "
            "buffer limits, cancellation of sends, optionally a drop of the connection or a close by the application.")

    def gen(self, rng, i, tier):
        sc = {"kind": rng.choice(("cmd", "cmd", "old")), "plan": gen_handshake(rng), "net": gen_net(rng)}
        gen_common(rng, sc)
        n = sc["net"]
        if rng.random() < 0.75:
            n["high_water"] = rng.choice((0, 1, 16, 40, 200))
            sc["stalls"] = [[round(rng.uniform(0, 4), 2), rng.choice((0.05, 0.3, 1.0, 5.0, 30.0))] for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.15:
                sc["stalls"].append([round(rng.uniform(0, 4), 2), rng.choice((100.0, 400.0, 2000.0))])
            if rng.random() < 0.5:
                n["short_cap"] = rng.choice((1, 2, 5, 17))
        senders = []
        uid = 1
        for k in range(rng.choice((1, 1, 2, 3, 4))):
            msgs = []
            for _ in range(rng.choice((1, 3, 6, 12))):
                f = gen_frame(rng)
                if rng.random() < 0.7:
                    f = own.normal(rng.choice(("1", "2")), gen_what(rng), str(1000 + uid))
                elif rng.random() < 0.06:
                    f = "*" + digits(rng, 1500 if n.get("short_cap") else rng.choice((4000, 30000, 61000, 70000, 140000))) + "##"
                uid += 1
                m = {"f": f, "gap": rng.choice((0, 0, 0, 0.01, 0.3, 1.0)), "how": rng.choice(("class", "class", "parse"))}
                if rng.random() < 0.15:
                    m["cancel"] = gen_cancel(rng, (0, 0.01, 0.1, 0.25, 1.0))
                msgs.append(m)
            senders.append({"start": rng.choice((0, 0, 0.5, 2.0)), "msgs": msgs})
        sc["senders"] = senders
        if rng.random() < 0.12:
            sc["drop"] = {"at": round(rng.uniform(0, 5), 2), "how": rng.choice(("eof", "rst", "vanish"))}
        elif rng.random() < 0.2:
            sc["close"] = round(rng.uniform(0, 6), 2)       # the application closes the client, data may still wait for the network
        return sc

    def run(self, sc):
        async def main(w):
            gw = SimGateway(w.sim, plans=[sc.get("plan", {})], net=sc.get("net", {}), seed=sc["seed"])
            c = await open_client(w, gw, sc.get("kind", "cmd"))
            s = gw.last
            base = s.raw_after
            if sc.get("close") is not None:
                w.sim.after(sc["close"], lambda: w.spawn(c.close(), "close"))
            t_start = w.sim.t
            if sc.get("drop"):
                w.sim.after(sc["drop"]["at"], s.drop, sc["drop"]["how"])
            recs = []

            async def sender(k, sd):
                await asyncio.sleep(sd.get("start", 0))
                for m in sd.get("msgs", ()):
                    if m.get("gap"):
                        await asyncio.sleep(m["gap"])
                    msg = build_message(m["f"], m.get("how", "class"))
                    rec = {"task": k, "f": m["f"], "out": None}
                    recs.append(rec)
                    t = w.spawn(c.send_message(msg), "send", w.when(m))
                    o = await t
                    rec["out"] = o.kind
                    if o.kind == "other":
                        w.viol("send-error", f"sending {m['f'][:80]} failed with {o}")

            tasks = [w.loop.create_task(sender(k, sd)) for k, sd in enumerate(sc["senders"])]
            for a, d in sc.get("stalls", ()):
                w.sim.after(a, s.conn._stall, d)
            stall_end = t_start + max([0] + [a + b for a, b in sc.get("stalls", ())])
            total = sum(sd.get("start", 0) + sum(m.get("gap", 0) + 0.3 for m in sd.get("msgs", ())) for sd in sc["senders"])
            limit = max(stall_end, t_start) + total + 60
            pend = await w.finish(tasks, limit)
            if pend and not sc.get("drop"):
                w.viol("stuck", f"{len(pend)} senders are still waiting {limit:.0f} s after the network accepted data again")
            elif pend:
                w.viol("stuck", "a sender waits for ever on a dropped connection")
            prev = -1
            await w.until(stall_end + 1)
            for _ in range(4000):
                if s.raw_len() == prev and not pend_up(s):
                    break
                prev = s.raw_len()
                await asyncio.sleep(2)
            dropped = bool(sc.get("drop"))
            raw = bytes(s.raw[base:])
            frames, tail = [], b""
            buf = raw
            while True:
                k = buf.find(b"##")
                if k < 0:
                    tail = buf
                    break
                frames.append(buf[: k + 2].decode("latin-1"))
                buf = buf[k + 2:]
            if tail and not dropped:
                w.viol("truncated", f"the stream ends inside a frame: {tail[:80]!r}")
            # frames received must be the messages sent: each task's in order, each at most once, all if accepted
            pool = {}
            for idx, r in enumerate(recs):
                pool.setdefault(r["f"], []).append(idx)
            lastpos = {}
            used = [0] * len(recs)
            for f in frames:
                cand = [j for j in pool.get(f, ()) if not used[j]]
                if not cand:
                    w.viol("foreign", f"the gateway received {f[:120]!r}, which was not sent (or was sent fewer times)")
                    break
                cand.sort(key=lambda j: recs[j]["out"] != "ok")
                used[cand[0]] = 1
            for k in range(len(sc["senders"])):
                mine = [j for j, r in enumerate(recs) if r["task"] == k]
                ks = [recs[j]["f"] for j in mine]
                if len(set(ks)) != len(ks):
                    continue  # equal texts: order between them is not observable
                pos = []
                for f in ks:
                    if f in frames and frames.count(f) == 1 and len(pool[f]) == 1:
                        pos.append(frames.index(f))
                if pos != sorted(pos):
                    w.viol("order", f"messages of task {k} arrived in another order than sent")
            if not dropped and not pend:
                for j, r in enumerate(recs):
                    if r["out"] == "ok" and not used[j]:
                        w.viol("lost", f"{r['f'][:100]!r} was sent without error and never reached the gateway")
                        break
            w.probe("frames received by the gateway", len(frames))
            w.probe("sends cancelled", sum(r["out"] == "cancelled" for r in recs))

        return execute(sc, main, horizon=7200)


def pend_up(s):
    """Data the client's side still holds or has in flight."""
    return s.conn.up_last > s.sim.now
