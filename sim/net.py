"""Virtual-time asyncio loop and simulated TCP.

The loop is asyncio's own selector loop (its real scheduler, timers, Task/Future machinery and the
real selector socket transport); only the selector, the clock and the sockets are simulated.  All
network activity is driven by timers of that same loop, so there is one total order of events per
scenario.
"""
import asyncio
import collections
import errno
import heapq
import random
import selectors
import socket
import weakref
from asyncio import selector_events

from . import env


class SimLivelock(BaseException):
    pass


class Sim:
    """One simulated world: clock, entropy, network, history."""

    MAX_STEPS = 400_000

    def __init__(self, seed=0, wall0=1_700_000_000.0, lag=0.0, tick=0.0, wall_jumps=None, max_steps=None, fifo=False):
        self.now = 1000.0
        self.t0 = self.now
        self.steps = 0
        self.max_steps = max_steps or self.MAX_STEPS
        self.rng = random.Random(f"sim-{seed}")
        self.drbg = env.Drbg(("entropy", seed))
        self.wall0 = wall0
        self.wall_shift = 0.0
        self.wall_reads = 0
        self.tick = tick
        self.wall_jumps = dict(wall_jumps or {})  # number of the clock read -> seconds
        self.lag = lag
        self.fifo = fifo
        self.hist = []
        self.faults = {}
        self.probes = {}
        self.deadlock = False
        self.conns = []
        self.listeners = {}
        self._fd = 5000
        self._seq = 0
        self._events = []
        self.loop = None
        self.block_hook = None
        self.recv_hooks = []
        self.transports = []
        self.reports = None     # log records of errors, when a family asks for them

    # -- history ---------------------------------------------------------------------------
    def log(self, actor, kind, *data):
        self.hist.append((round(self.now - self.t0, 6), actor, kind, *data))

    def count(self, what, name, n=1):
        d = self.faults if what == "fault" else self.probes
        d[name] = d.get(name, 0) + n

    @property
    def t(self):
        return self.now - self.t0

    # -- clock -----------------------------------------------------------------------------
    def set_clock(self, d):
        self.wall_shift += d
        self.count("fault", "wall clock set forward or back")

    def wall(self, tick=True):
        w = self.wall0 + (self.now - self.t0) + self.wall_shift
        if tick:
            self.wall_reads += 1
            j = self.wall_jumps.get(self.wall_reads)
            if j:
                self.wall_shift += j
                self.count("fault", "wall clock jump between two reads")
            self.wall_shift += self.tick
        return w

    def block(self, seconds):
        """The application blocks the event loop (a slow or stalled process)."""
        self.now += max(0.0, seconds)
        self.count("fault", "event loop blocked")

    def at(self, when, fn, *args):
        """Run fn at absolute loop time `when`; events of equal time keep the order of their scheduling
        (asyncio's own timers do not)."""
        self._seq += 1
        if self.fifo:
            when = round(when, 6)
        heapq.heappush(self._events, (when, self._seq, fn, args))
        self.loop.call_at(when, self._next_event)

    def after(self, delay, fn, *args):
        self.at(self.now + delay, fn, *args)

    def _next_event(self):
        _, _, fn, args = heapq.heappop(self._events)
        fn(*args)

    def on_recv(self, j, k, fn):
        """Run fn k loop iterations after the j-th time from now that a client takes data off a socket; k = 0: in between
        the arrival of the data and anything the library does with it."""
        self.recv_hooks.append([max(1, j), k, fn])

    def received(self):
        for h in list(self.recv_hooks):
            h[0] -= 1
            if h[0] == 0:
                self.recv_hooks.remove(h)
                self._steps_later(h[1], h[2])

    def _steps_later(self, k, fn):
        if k <= 0:
            fn()
        else:
            self.loop.call_soon(self._steps_later, k - 1, fn)

    def fd(self):
        self._fd += 1
        return self._fd


class FakeSelector(selectors._BaseSelectorImpl):
    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self.socks = {}

    def select(self, timeout=None):
        sim = self.sim
        sim.steps += 1
        if sim.steps > sim.max_steps:
            raise SimLivelock(f"more than {sim.max_steps} loop iterations")
        if sim.lag:
            if sim.rng.random() < 0.3:
                sim.now += sim.rng.choice((0.0001, 0.001, 0.003)) * sim.lag
        ready = self._ready()
        if ready:
            return ready
        if timeout is None:
            sim.deadlock = True
            sim.loop.stop()
            return []
        if timeout > 0:
            sched = sim.loop._scheduled
            if sched:
                sim.now = max(sim.now, sched[0]._when)
            else:
                sim.now += timeout
        return []

    def _ready(self):
        out = []
        for fd, key in self._fd_to_key.items():
            s = self.socks.get(fd)
            if s is None:
                continue
            m = 0
            if key.events & selectors.EVENT_READ and s.readable():
                m |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and s.writable():
                m |= selectors.EVENT_WRITE
            if m:
                out.append((key, m))
        if len(out) > 1:
            self.sim.rng.shuffle(out)
        return out


class FakeSocket:
    """The client's end of a simulated TCP connection."""

    family = socket.AF_INET
    type = socket.SOCK_STREAM
    proto = socket.IPPROTO_TCP

    def __init__(self, conn):
        self.conn = conn
        self._fd = conn.sim.fd()
        self.closed = 0

    def fileno(self):
        return -1 if self.closed else self._fd

    def setblocking(self, flag):
        pass

    def gettimeout(self):
        return 0.0

    def getsockname(self):
        return ("10.0.0.2", 40000 + self._fd)

    def getpeername(self):
        return (self.conn.host, self.conn.port)

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    # readiness
    def readable(self):
        c = self.conn
        return bool(c.rx) or c.rx_eof or c.reset

    def writable(self):
        c = self.conn
        return c.reset or not c.tx_blocked()

    def recv(self, n):
        c = self.conn
        if c.reset:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if not c.rx:
            if c.rx_eof:
                c.eof_seen = True
                c.sim.received()
                return b""
            raise BlockingIOError(errno.EAGAIN, "would block")
        k = min(n, len(c.rx))
        if c.recv_cap:
            k = min(k, 1 + c.rng.randrange(c.recv_cap))
        data = bytes(c.rx[:k])
        del c.rx[:k]
        c.consumed += k
        c.recv_calls += 1
        c.sim.received()
        return data

    def recv_into(self, buf):
        data = self.recv(len(buf))
        buf[: len(data)] = data
        return len(data)

    def send(self, data):
        c = self.conn
        data = bytes(data)
        if self.closed:
            raise OSError(errno.EBADF, "bad fd")
        if c.reset:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if not data:
            return 0
        if c.tx_blocked():
            c.sim.count("fault", "send would block (peer window closed)")
            raise BlockingIOError(errno.EAGAIN, "would block")
        k = len(data)
        if c.short_cap:
            k = min(k, 1 + c.rng.randrange(c.short_cap))
            if k < len(data):
                c.sim.count("fault", "short write")
        c.accepted(data[:k])
        return k

    def sendmsg(self, buffers, *a):
        return self.send(b"".join(bytes(b) for b in buffers))

    def shutdown(self, how):
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            self.conn.client_fin()

    def close(self):
        self.closed += 1
        if self.closed == 1:
            self.conn.sim.loop._selector.socks.pop(self._fd, None)
            self.conn.client_closed()

    def detach(self):
        return self._fd


class Conn:
    """A simulated TCP connection: two FIFO byte pipes with delay, stalls, loss of the peer."""

    def __init__(self, sim, host, port, peer, opts, index):
        self.sim = sim
        self.host, self.port = host, port
        self.index = index
        self.name = f"{host}#{index}"
        self.opts = opts
        self.rng = random.Random(f"conn-{opts.get('seed', 0)}-{host}-{index}")
        self.rx = bytearray()
        self.rx_eof = False
        self.eof_seen = False
        self.reset = False
        self.consumed = 0       # bytes the client read
        self.delivered = 0      # bytes put in the client's receive buffer
        self.inflight = 0       # bytes sent by the gateway and not delivered yet
        self.recv_calls = 0
        self.recv_cap = opts.get("recv_cap", 0)
        self.short_cap = opts.get("short_cap", 0)
        self.tx_bytes = bytearray()   # everything the client's kernel accepted
        self.tx_log = []              # (time, offset) of every accept
        self.up_q = collections.deque()
        self.down_q = collections.deque()
        self.up_last = 0.0
        self.down_last = 0.0
        self.fin_sent = False         # client closed its side
        self.close_time = None
        self.stall_until = 0.0
        self.cut_off = False          # gateway vanished: nothing goes through any more
        self.sock = FakeSocket(self)
        self.peer = peer
        sim.loop._selector.socks[self.sock._fd] = self.sock
        sim.conns.append(self)
        for st in opts.get("stalls", ()):  # [start, duration] relative to the connection
            self.sim.after(st[0], self._stall, st[1])

    # -- faults ----------------------------------------------------------------------------
    def _stall(self, d):
        self.stall_until = max(self.stall_until, round(self.sim.now + d, 6))
        self.sim.count("fault", "network stall")
        self.sim.log(self.name, "stall", d)
        self.sim.at(self.stall_until, lambda: None)

    def tx_blocked(self):
        # asyncio runs timers up to its clock resolution early
        return self.sim.now < self.stall_until - 1e-6

    def lat(self):
        base = self.opts.get("lat", 0.01)
        j = self.opts.get("jitter", 0.0)
        return base + (self.rng.random() * j if j else 0.0)

    # -- client to gateway -----------------------------------------------------------------
    def accepted(self, data):
        self.tx_log.append((self.sim.t, len(self.tx_bytes), len(data), self.inflight, len(self.rx)))
        self.tx_bytes += data
        if self.cut_off:
            return
        at = max(self.up_last, self.sim.now + self.lat(), self.stall_until)
        self.up_last = at
        # timers with equal times run in no particular order: the pipes keep their own
        self.up_q.append(data)
        self.sim.at(at, self._arrive)

    def _arrive(self):
        data = self.up_q.popleft()
        if data is None:
            self._fin_arrive()
        elif self.peer is not None and not self.cut_off:
            self.peer.on_data(self, data)

    def client_fin(self):
        if self.fin_sent:
            return
        self.fin_sent = True
        at = max(self.up_last, self.sim.now + self.lat(), self.stall_until)
        self.up_last = at
        self.up_q.append(None)
        self.sim.at(at, self._arrive)

    def _fin_arrive(self):
        self.sim.log(self.name, "gateway sees close")
        if self.peer is not None:
            self.peer.on_close(self)

    def client_closed(self):
        self.close_time = self.sim.t
        self.client_fin()

    # -- gateway to client -----------------------------------------------------------------
    def send(self, data, cuts=None, delays=None):
        """Gateway sends data; cut into segments, each delayed, order kept."""
        if self.cut_off or self.reset:
            return self.sim.now
        if cuts is None:
            cuts = self._auto_cuts(len(data))
        segs, prev = [], 0
        for c in sorted(set(int(c) for c in cuts)):
            if prev < c < len(data):
                segs.append(data[prev:c])
                prev = c
        segs.append(data[prev:])
        if len(segs) > 1:
            self.sim.count("fault", "frame split across TCP segments")
        at = self.down_last
        for i, seg in enumerate(segs):
            d = delays[i] if delays and i < len(delays) else self.lat()
            at = max(at, self.sim.now + d, self.stall_until)
            if i == 0 and at == self.down_last and self.inflight:
                self.sim.count("fault", "frames joined in one TCP segment")
            self.inflight += len(seg)
            self.down_q.append(seg)
            self.sim.at(at, self._deliver)
        self.down_last = at
        return at

    def _auto_cuts(self, n):
        mode = self.opts.get("seg", 0)
        if not mode or n < 2:
            return ()
        if mode == 1:
            return (self.rng.randrange(1, n),) if self.rng.random() < 0.5 else ()
        if mode == 2:
            return [self.rng.randrange(1, n) for _ in range(self.rng.randrange(0, 4))]
        return range(1, n)

    def _deliver(self):
        # a stall that began after the segment was scheduled still holds it back
        if self.sim.now < self.stall_until:
            self.sim.at(self.stall_until, self._deliver)
            return
        seg = self.down_q.popleft()
        if seg is None:
            self.rx_eof = True
            self.sim.count("fault", "connection closed by the gateway")
            self.sim.log(self.name, "eof")
            return
        self.inflight -= len(seg)
        if self.reset or self.cut_off or self.rx_eof:
            return
        self.delivered += len(seg)
        self.rx += seg

    def eof(self, delay=0.0):
        at = max(self.down_last, self.sim.now + delay, self.stall_until)
        self.down_last = at
        self.down_q.append(None)
        self.sim.at(at, self._deliver)

    def rst(self, delay=0.0):
        self.sim.after(delay, self._rst)

    def _rst(self):
        if not self.reset:
            self.reset = True
            self.rx.clear()
            self.sim.count("fault", "connection reset")
            self.sim.log(self.name, "reset")

    def vanish(self):
        """The gateway loses power: no FIN, no RST, silence."""
        self.cut_off = True
        self.sim.count("fault", "gateway vanished")

    @property
    def client_open(self):
        return self.sock.closed == 0


class FifoTimer(asyncio.TimerHandle):
    """Timers of equal time run in the order of their creation (asyncio leaves it open)."""

    __slots__ = ("seq",)

    def __lt__(self, other):
        if isinstance(other, FifoTimer):
            return (self._when, self.seq) < (other._when, other.seq)
        return NotImplemented


class SimLoop(selector_events.BaseSelectorEventLoop):
    def __init__(self, sim):
        self.sim = sim
        sim.loop = self
        super().__init__(FakeSelector(sim))
        self._clock_resolution = 1e-9
        self.errors = []

    def call_at(self, when, callback, *args, context=None):
        if not self.sim.fifo:
            return super().call_at(when, callback, *args, context=context)
        self.sim._seq += 1
        when = round(when, 6)       # sums of the same delays in another order are the same time
        t = FifoTimer(when, callback, args, self, context)
        t.seq = self.sim._seq
        heapq.heappush(self._scheduled, t)
        t._scheduled = True
        return t

    def _make_self_pipe(self):
        self._internal_fds = 0

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        pass

    def time(self):
        return self.sim.now

    def run_in_executor(self, executor, func, *args):
        """Work handed to a thread is done at once; its result arrives a moment later."""
        fut = self.create_future()
        try:
            res, exc = func(*args), None
        except Exception as e:  # noqa
            res, exc = None, e

        def done():
            if not fut.done():
                fut.set_result(res) if exc is None else fut.set_exception(exc)

        self.sim.after(0.001, done)
        return fut

    def _make_socket_transport(self, sock, protocol, waiter=None, *, extra=None, server=None):
        tr = super()._make_socket_transport(sock, protocol, waiter, extra=extra, server=server)
        self.sim.transports.append(weakref.ref(tr))
        high = sock.conn.opts.get("high_water")
        if high is not None:
            tr.set_write_buffer_limits(high=high, low=min(high // 4, high))
        return tr

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        if kw.get("sock") is not None:
            return await super().create_connection(protocol_factory, **kw)
        sim = self.sim
        sim.log(f"{host}", "connect")
        gw = sim.listeners.get((host, port))
        how = gw.connect_plan() if gw is not None else {"fail": "refused"}
        d = how.get("delay", 0.01)
        fail = how.get("fail")
        if fail == "refused":
            await asyncio.sleep(d)
            sim.count("fault", "connect refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if fail == "unreachable":
            await asyncio.sleep(d)
            sim.count("fault", "connect unreachable")
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        if fail == "dns":
            await asyncio.sleep(d)
            sim.count("fault", "name resolution failed")
            raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        if fail == "timeout":
            sim.count("fault", "connect timed out")
            await asyncio.sleep(127.0)
            raise TimeoutError(errno.ETIMEDOUT, "Connection timed out")
        await asyncio.sleep(d)
        conn = gw.accept(how.get("_plan"))
        # a cancellation or error while the transport is set up closes the socket, as asyncio does
        return await super().create_connection(protocol_factory, sock=conn.sock)


def new_world(seed=0, **kw):
    sim = Sim(seed, **kw)
    loop = SimLoop(sim)
    env.CUR.sim = sim
    random.seed(f"global-{seed}")
    return sim, loop
