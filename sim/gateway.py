"""Simulated gateway: handshake state machine (docs/original/intro.md, hmac.md) plus injected faults.

The gateway is the other party of every run.  It is a stub in the sense that it is not a real
BTicino device; it follows the documents, and departs from them only where the scenario says so.
"""
import random

from . import own
from .net import Conn


class GwSession:
    def __init__(self, gw, conn, plan):
        self.gw, self.conn, self.plan = gw, conn, plan
        self.sim = gw.sim
        self.reader = own.FrameReader()
        self.frames = []          # (time, text) of every frame received
        self.raw = bytearray()    # every byte received
        self.after = 0            # number of frames received before the session was granted
        self.raw_after = None     # offset in raw where the session proper starts
        self.kind = None
        self.state = "greet"
        self.granted = False
        self.grant_time = None
        self.refused = False
        self.closed_at = None     # the client closed its end
        self.dead = False         # the gateway dropped the connection
        self.greet_time = None
        self.violations = []
        self.hs = {}              # handshake values (nonces, hashes)
        self.confirmed = False
        self.on_frame = gw.on_frame
        self.sent = []            # (time, arrival, text) frames sent once granted
        d = plan.get("greet_delay", 0.0)
        self.sim.after(d, self.step, "greet")

    # -- actions -----------------------------------------------------------------------------
    def send_text(self, text, cuts=None, delays=None):
        if self.dead:
            return None
        at = self.conn.send(text.encode("ascii"), cuts, delays)
        self.sent.append((self.sim.t, at - self.sim.t0, text))
        return at

    def send_later(self, delay, text):
        if delay <= 0:
            self.send_text(text)
        else:
            self.sim.after(delay, self.send_text, text)

    def drop(self, how="eof", delay=0.0):
        if self.dead:
            return
        self.dead = True
        if how == "eof":
            self.conn.eof(delay)
        elif how == "rst":
            self.conn.rst(delay)
        else:
            self.conn.vanish()

    def step(self, name, honest=None):
        """Carry out one handshake step: the scenario's fault if there is one, else the honest reply."""
        if self.dead:
            return
        if name == "greet":
            honest = [own.ACK]
            self.greet_time = self.sim.t
            self.state = "session"
        f = self.plan.get("faults", {}).get(name)
        self.sim.log(self.conn.name, "gw step", name, f["act"] if f else "honest")
        if f is None:
            d = self.plan.get("delays", {}).get(name, 0.0)
            if d:
                self.sim.after(d, self._reply, honest)
            else:
                self._reply(honest)
            return
        act = f["act"]
        self.sim.count("fault", f"handshake: {act} at {name}")
        d = f.get("delay", 0.0)
        if act == "silence":
            self.state = "mute"
        elif act in ("eof", "rst", "vanish"):
            self.drop(act, d)
        elif act == "frame":
            self.state = "confused"
            self.more = list(f.get("more", ()))      # what it says to each further frame of the client
            self.granted = False
            self.sim.after(d, self._send_all, [f["data"]])
        elif act == "raw":
            self.state = "confused"
            self.granted = False
            self.sim.after(d, lambda: None if self.dead else self.conn.send(bytes.fromhex(f["data"])))
        elif act == "chatter":
            # frames of ordinary traffic, for ever, and never the one the client waits for
            self.state = "confused"
            self.granted = False
            self._chatter(f, 0)
        elif act == "partial":
            self.state = "mute"
            self.granted = False
            data = honest[0].encode()
            self.sim.after(d, lambda: None if self.dead else self.conn.send(data[: max(1, len(data) // 2)]))
        elif act == "honest_then_drop":
            self._send_all(honest)
            self.drop(f.get("how", "eof"), d)
        elif act == "late":
            self.sim.after(d, self._send_all, honest)
        elif act == "dup":
            self._send_all(list(honest) + list(honest))
        else:
            raise AssertionError(act)

    def _chatter(self, f, n):
        if self.dead or self.closed_at is not None or n > 400:
            return
        self.send_text(f["data"])
        self.sim.after(f.get("every", 1.0), self._chatter, f, n + 1)

    def _reply(self, frames):
        self._send_all(frames)
        if self.granted:
            self._eager()

    def _eager(self):
        # a gateway may speak in the same breath as it grants the session
        if self.gw.on_grant is not None and not self.dead:
            self.gw.on_grant(self)

    def _send_all(self, frames):
        for f in frames:
            self.send_text(f)

    # -- network callbacks -------------------------------------------------------------------
    def on_data(self, conn, data):
        self.raw += data
        for f in self.reader.feed(data):
            self.frames.append((self.sim.t, f))
            self.sim.log(conn.name, "gw<-", f)
            self.handle(f)

    def on_close(self, conn):
        self.closed_at = self.sim.t

    def raw_len(self):
        return len(self.raw)

    def grant(self):
        self.granted = True
        self.grant_time = self.sim.t
        self.state = "open"
        self.after = len(self.frames)
        self.raw_after = len(self.raw) - len(self.reader.buf)

    def refuse(self):
        self.refused = True
        self.state = "refused"

    # -- handshake ---------------------------------------------------------------------------
    def handle(self, f):
        if self.dead or self.state in ("mute", "confused", "refused"):
            if self.state == "confused" and not self.dead and getattr(self, "more", None):
                self.send_text(self.more.pop(0))
            return
        if self.state == "greet":
            self.violations.append(("early", f"client sent {f!r} before the gateway's greeting"))
            return
        if self.state == "session":
            if not (f.startswith("*99*") and f[4:-2] in ("0", "1", "9")):
                self.refuse()
                self.step("session", [own.NACK])
                return
            self.kind = f[4:-2]
            auth = self.plan.get("auth", "none")
            if self.plan.get("deny"):
                self.refuse()
                self.step("session", [own.NACK])
            elif auth == "none":
                self.grant()
                self.step("session", [own.ACK])
            elif auth == "open":
                self.hs["nonce"] = self.plan.get("nonce") or str(self.gw.rng.randrange(1, 10 ** 9))
                self.state = "password"
                self.step("session", [f"*#{self.hs['nonce']}##"])
            else:
                self.hs["alg"] = 1 if auth == "sha1" else 2
                self.state = "algack"
                self.step("session", [f"*98*{self.hs['alg']}##"])
        elif self.state == "password":
            want = f"*#{own.open_password(self.plan['password'], self.hs['nonce'])}##"
            self.hs["answer"] = f
            if f == want and not self.plan.get("deny_password"):
                self.grant()
                self.step("auth", [own.ACK])
            else:
                self.refuse()
                self.step("auth", [own.NACK])
        elif self.state == "algack":
            if f == own.ACK:
                n = 40 if self.hs["alg"] == 1 else 64
                ra = self.plan.get("ra") or "".join(self.gw.rng.choice("0123456789abcdef") for _ in range(n))
                self.hs["ra"] = ra
                self.state = "clienthash"
                self.step("ra", [f"*#{own.to_digits(ra)}##"])
            else:
                self.refuse()
                self.step("ra", [own.NACK])
        elif self.state == "clienthash":
            self.handle_client_hash(f)
        elif self.state == "confirm":
            self.hs["confirm"] = f
            if f == own.ACK:
                self.confirmed = True
                self.grant()
                self.after = len(self.frames)
                self._eager()
            else:
                self.refuse()
        elif self.state == "open":
            if self.on_frame is not None:
                self.on_frame(self, f)

    def handle_client_hash(self, f):
        body = f[2:-2].split("*") if f.startswith("*#") else []
        rb = own.from_digits(body[0]) if len(body) == 2 else None
        hc = own.from_digits(body[1]) if len(body) == 2 else None
        self.hs["client_frame"] = f
        self.hs["rb"] = rb
        self.hs["client_hash"] = hc
        pw = self.plan["password"]
        alg, ra = self.hs["alg"], self.hs["ra"]
        good = rb is not None and hc == own.hmac_client(alg, ra, rb, pw)
        self.hs["client_ok"] = good
        forge = self.plan.get("forge")
        if forge is None:
            if not good:
                self.refuse()
                self.step("proof", [own.NACK])
                return
            proof = own.to_digits(own.hmac_server(alg, ra, rb, pw))
            self.gw.proofs.append(proof)
            self.hs["proof"] = proof
            self.state = "confirm"
            self.step("proof", [f"*#{proof}##"])
            return
        # a peer that does not prove it knows the password (of this exchange)
        rb = rb or ""
        n = 40 if alg == 1 else 64
        real = own.hmac_server(alg, ra, rb, pw)
        r = self.gw.rng
        if forge == "random":
            data = own.to_digits("".join(r.choice("0123456789abcdef") for _ in range(n)))
        elif forge == "zero":
            data = own.to_digits("0" * n)
        elif forge == "reflect_hash":
            data = own.to_digits(hc or "")
        elif forge == "reflect_rb":
            data = own.to_digits(rb)
        elif forge == "reflect_ra":
            data = own.to_digits(ra)
        elif forge == "client_formula":
            data = own.to_digits(own.hmac_client(alg, ra, rb, "guess"))
        elif forge == "wrong_password":
            data = own.to_digits(own.hmac_server(alg, ra, rb, pw + "1"))
        elif forge == "no_password":
            data = own.to_digits(own.hmac_server(alg, ra, rb, ""))
        elif forge == "swapped":
            data = own.to_digits(own.hmac_server(alg, rb, ra, pw))
        elif forge == "other_nonce":
            other = "".join(r.choice("0123456789abcdef") for _ in range(len(rb) or n))
            data = own.to_digits(own.hmac_server(alg, ra, other, pw))
        elif forge == "other_ra":
            other = "".join(r.choice("0123456789abcdef") for _ in range(n))
            data = own.to_digits(own.hmac_server(alg, other, rb, pw))
        elif forge == "other_alg":
            data = own.to_digits(own.hmac_server(3 - alg, ra, rb, pw))
        elif forge == "replay":
            data = self.gw.proofs[-1] if self.gw.proofs else own.to_digits("1" * n)
        elif forge == "prefix":
            data = own.to_digits(real)[: 2 * self.plan.get("keep", 8)]
        elif forge == "suffix":
            data = own.to_digits(real)[-2 * self.plan.get("keep", 8):]
        elif forge == "extended":
            data = own.to_digits(real + "00")
        elif forge == "flip":
            i = self.plan.get("keep", 0) % n
            c = "0" if real[i] != "0" else "1"
            data = own.to_digits(real[:i] + c + real[i + 1:])
        elif forge == "odd":
            data = own.to_digits(real)[:-1]
        elif forge == "empty":
            data = ""
        elif forge == "ack":
            data = None
        else:
            raise AssertionError(forge)
        self.hs["proof"] = data
        self.state = "confirm"
        self.sim.count("fault", f"hostile gateway: {forge}")
        self.step("proof", [own.ACK if data is None else f"*#{data}##"])


class SimGateway:
    def __init__(self, sim, host="192.168.1.35", port=20000, plans=None, net=None, seed=0, on_frame=None):
        self.sim, self.host, self.port = sim, host, port
        self.plans = plans or [{}]
        self.net = net or {}
        self.rng = random.Random(f"gw-{seed}-{host}-{port}")
        self.sessions = []
        self.attempts = 0
        self.proofs = []
        self.on_frame = on_frame
        self.on_session = None
        self.on_grant = None
        sim.listeners[(host, port)] = self

    def plan(self, i):
        return self.plans[i] if i < len(self.plans) else self.plans[-1]

    def connect_plan(self):
        self.attempts += 1
        plan = self.plan(self.attempts - 1)
        return dict(plan.get("connect", {}), _plan=plan)

    def accept(self, plan):
        opts = dict(self.net)
        opts.update(plan.get("net", {}))
        conn = Conn(self.sim, self.host, self.port, None, opts, len(self.sessions))
        s = GwSession(self, conn, plan)
        conn.peer = s
        self.sessions.append(s)
        self.sim.log(conn.name, "accepted")
        if self.on_session:
            self.on_session(s)
        return conn

    @property
    def last(self):
        return self.sessions[-1] if self.sessions else None

    def open_conns(self):
        return [s for s in self.sessions if s.conn.client_open]
