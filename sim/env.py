"""Process-wide seams: wall clock, randomness, logging.

install() must run before pyown is imported.  It replaces every source of wall-clock time and
randomness the library can reach by one that reads the current simulation (CUR.sim).  Outside a
simulation (CUR.sim is None) the originals are used, so the harness itself is unaffected.
"""
import datetime as _dt
import hashlib
import logging
import os
import random
import sys
import time as _time

REPO = os.environ.get("PYOWN_REPO", "/repo")

real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter
real_cpu = _time.process_time
real_urandom = os.urandom
real_datetime = _dt.datetime
real_date = _dt.date


class _Cur:
    sim = None


CUR = _Cur()

# The simulated host is two hours east of Greenwich, so that local and UTC dates can differ.
LOCAL_OFFSET = 2 * 3600
EPOCH = real_datetime(1970, 1, 1)


def local_now(tick=True):
    """The simulated local wall clock as a naive real datetime."""
    return EPOCH + _dt.timedelta(seconds=CUR.sim.wall(tick) + LOCAL_OFFSET)


class SimDate(real_date):
    @classmethod
    def today(cls):
        if CUR.sim is None:
            return real_date.today()
        n = local_now()
        return cls(n.year, n.month, n.day)


class SimDateTime(real_datetime):
    @classmethod
    def now(cls, tz=None):
        if CUR.sim is None:
            return real_datetime.now(tz)
        n = local_now()
        if tz is None:
            return cls(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond)
        u = n - _dt.timedelta(seconds=LOCAL_OFFSET)
        return tz.fromutc(cls(u.year, u.month, u.day, u.hour, u.minute, u.second, u.microsecond, tzinfo=tz))

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        if CUR.sim is None:
            return real_datetime.now(_dt.timezone.utc).replace(tzinfo=None)
        n = local_now() - _dt.timedelta(seconds=LOCAL_OFFSET)
        return cls(n.year, n.month, n.day, n.hour, n.minute, n.second, n.microsecond)


class Drbg:
    """Deterministic byte stream standing in for the operating system's entropy."""

    def __init__(self, seed):
        self.key = hashlib.sha256(repr(seed).encode()).digest()
        self.n = 0
        self.drawn = 0
        self.weak = False       # half of every draw is the same everywhere (a device with little entropy)

    def bytes(self, n):
        out = b""
        while len(out) < n:
            out += hashlib.sha256(self.key + self.n.to_bytes(8, "big")).digest()
            self.n += 1
        self.drawn += n
        return bytes(n // 2) + out[n // 2:n] if self.weak else out[:n]


def _urandom(n):
    if CUR.sim is None:
        return real_urandom(n)
    return CUR.sim.drbg.bytes(n)


real_getpid = os.getpid


def _getpid():
    return real_getpid() if CUR.sim is None else 4242


def _t_time():
    return real_time() if CUR.sim is None else CUR.sim.wall(True)


def _t_time_ns():
    return int(_t_time() * 1e9)


def _t_mono():
    return real_monotonic() if CUR.sim is None else CUR.sim.now


def _t_sleep(s):
    """A blocking sleep blocks the simulated loop."""
    if CUR.sim is None:
        return _real_sleep(s)
    CUR.sim.block(s)


_real_sleep = _time.sleep
_real_localtime = _time.localtime
_real_gmtime = _time.gmtime
_real_strftime = _time.strftime


def _t_localtime(secs=None):
    if secs is None:
        secs = _t_time()
    return _real_localtime(secs)


def _t_gmtime(secs=None):
    if secs is None:
        secs = _t_time()
    return _real_gmtime(secs)


def _t_strftime(fmt, t=None):
    return _real_strftime(fmt, _t_localtime() if t is None else t)


class _FormattingHandler(logging.Handler):
    """Formats every record (so that faulty log calls show) and throws the text away."""

    def emit(self, record):
        if CUR.sim is not None and CUR.sim.reports is not None and record.levelno >= logging.WARNING:
            CUR.sim.reports.append((record.msg, record.args, record.exc_info[1] if record.exc_info else None))
        try:
            self.format(record)
        except Exception:
            if CUR.sim is not None:
                CUR.sim.count("probe", "log record that cannot be formatted")


def install():
    os.environ["TZ"] = "SIM-02:00"
    _time.tzset()
    sys.dont_write_bytecode = True
    _dt.datetime = SimDateTime
    _dt.date = SimDate
    _time.time = _t_time
    _time.time_ns = _t_time_ns
    _time.monotonic = _t_mono
    _time.sleep = _t_sleep
    _time.localtime = _t_localtime
    _time.gmtime = _t_gmtime
    _time.strftime = _t_strftime
    os.urandom = _urandom
    os.getpid = _getpid
    random._urandom = _urandom
    logging.raiseExceptions = False
    root = logging.getLogger()
    root.handlers[:] = [_FormattingHandler()]
    root.setLevel(logging.WARNING)
    import warnings

    warnings.simplefilter("ignore")
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    for name in [m for m in sys.modules if m == "pyown" or m.startswith("pyown.")]:
        del sys.modules[name]
    import pyown  # noqa
    import pyown.client, pyown.items, pyown.messages, pyown.tags, pyown.exceptions  # noqa
    import pyown.items.camera, pyown.items.energy, pyown.items.gateway  # noqa
    import pyown.items.lighting, pyown.items.automation  # noqa

    got = os.path.realpath(os.path.dirname(os.path.dirname(pyown.__file__)))
    if got != os.path.realpath(REPO):
        raise RuntimeError(f"pyown was imported from {got}, not from {REPO}")
    import gc

    gc.collect()
    gc.freeze()     # what exists now is no garbage: collections in the simulation stay cheap
