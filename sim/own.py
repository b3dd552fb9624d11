"""Independent OpenWebNet reference: frame texts, classification, password algorithms.

Written from docs/original, shares no code with pyown.
"""
import hashlib
import re

ACK = "*#*1##"
NACK = "*#*0##"

KNOWN_WHO = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25",
             "1001", "1004", "1013", "1018"}


def normal(who, what, where):
    return f"*{who}*{what}*{where}##"


def status(who, where):
    return f"*#{who}*{where}##"


def dimreq(who, where, dim):
    return f"*#{who}*{where}*{dim}##"


def dimwr(who, where, dim, *vals):
    return f"*#{who}*{where}*#{dim}" + "".join(f"*{v}" for v in vals) + "##"


def dimres(who, where, dim, *vals):
    return f"*#{who}*{where}*{dim}" + "".join(f"*{v}" for v in vals) + "##"


def classify(frame):
    """(kind, fields) of a well-formed frame, from the structure the protocol documents give."""
    assert frame.startswith("*") and frame.endswith("##"), frame
    tags = frame[1:-2].split("*")
    if frame == ACK:
        return "ACK", {}
    if frame == NACK:
        return "NACK", {}
    if tags[0].startswith("#"):
        who = tags[0][1:]
        if who in KNOWN_WHO:
            if len(tags) == 2:
                return "STATUS REQUEST", {"who": who, "where": tags[1]}
            if len(tags) >= 3 and tags[2].startswith("#"):
                return "DIMENSION WRITING", {"who": who, "where": tags[1], "dimension": tags[2][1:], "values": tags[3:]}
            if len(tags) == 3:
                return "DIMENSION REQUEST", {"who": who, "where": tags[1], "dimension": tags[2]}
            if len(tags) > 3:
                return "DIMENSION RESPONSE", {"who": who, "where": tags[1], "dimension": tags[2], "values": tags[3:]}
    elif len(tags) == 3 and tags[0] in KNOWN_WHO:
        return "NORMAL", {"who": tags[0], "what": tags[1], "where": tags[2]}
    return "GENERIC", {"tags": tags}


_T = r"\d+(?:#\d*)*"             # a tag with optional parameters
_W = r"(?:\d+(?:#\d*)*|#\d+(?:#\d*)*|)"   # an address; groups start with #, the gateway has none
_REGULAR = re.compile(
    rf"\*#\*[01]##|\*\d+\*{_T}\*{_W}##|\*#\d+\*{_W}##|\*#\d+\*{_W}\*{_T}(?:\*\d*(?:#\d*)*)*##"
    rf"|\*#\d+\*{_W}\*#{_T}(?:\*\d*(?:#\d*)*)*##|\*\d+##|\*#\d+##|\*\d+\*{_T}##|\*\d+(?:\*{_T}){{3,}}##")


def regular(frame):
    """Whether the frame has one of the documented structures, so that its kind and fields are defined."""
    return _REGULAR.fullmatch(frame) is not None


class FrameReader:
    """Gateway side reassembly: strict, whole frames only."""

    ALPHABET = set(b"0123456789*#")

    def __init__(self):
        self.buf = b""
        self.bad = []

    def feed(self, data):
        self.buf += data
        while True:
            i = self.buf.find(b"##")
            if i < 0:
                break
            f, self.buf = self.buf[: i + 2], self.buf[i + 2:]
            if not f.startswith(b"*") or not set(f) <= self.ALPHABET:
                self.bad.append(f)
            yield f.decode("latin-1")


# -- open password algorithm (32-bit register rotated as told by the nonce digits) -----------------
M = 0xFFFFFFFF


def _ror(x, n):
    return ((x >> n) | (x << (32 - n))) & M


def open_password(password, nonce):
    x = int(password) & M
    for c in nonce:
        if c == "1":
            x = _ror(x, 7)
        elif c == "2":
            x = _ror(x, 4)
        elif c == "3":
            x = _ror(x, 3)
        elif c == "4":
            x = _ror(x, 31)
        elif c == "5":
            x = _ror(x, 27)
        elif c == "6":
            x = _ror(x, 20)
        elif c == "7":
            b = [(x >> s) & 0xFF for s in (24, 16, 8, 0)]
            # bytes A B C D  ->  D A C B
            x = (b[3] << 24) | (b[0] << 16) | (b[2] << 8) | b[1]
        elif c == "8":
            b = [(x >> s) & 0xFF for s in (24, 16, 8, 0)]
            # bytes A B C D  ->  C D B A
            x = (b[2] << 24) | (b[3] << 16) | (b[1] << 8) | b[0]
        elif c == "9":
            x = ~x & M
    return str(x)


# -- HMAC handshake --------------------------------------------------------------------------------
A = "736F70653E"
B = "636F70653E"


def _h(alg):
    return hashlib.sha1 if alg == 1 else hashlib.sha256


def hmac_client(alg, ra, rb, password):
    h = _h(alg)
    kab = h(password.encode()).hexdigest()
    return h((ra + rb + A + B + kab).encode()).hexdigest()


def hmac_server(alg, ra, rb, password):
    h = _h(alg)
    kab = h(password.encode()).hexdigest()
    return h((ra + rb + kab).encode()).hexdigest()


def to_digits(hexs):
    return "".join(f"{int(c, 16):02d}" for c in hexs)


def from_digits(d):
    """Hex text or None if the digits are not a valid encoding."""
    if len(d) % 2 or not d.isdigit():
        return None
    v = [int(d[i:i + 2]) for i in range(0, len(d), 2)]
    if any(x > 15 for x in v):
        return None
    return "".join("0123456789abcdef"[x] for x in v)


# the published reference vectors of the open algorithm
for _p, _n, _r in (("12345", "603356072", "25280520"), ("12345", "410501656", "119537670"),
                   ("12345", "630292165", "4269684735"), ("12345", "523781130", "537331200")):
    assert open_password(_p, _n) == _r, (_p, _n, open_password(_p, _n))
