"""What the Python reference's formats and predicates mean, written from the documents (see ref.py)."""
import math
import hashlib
import numpy as np
from . import ref
from .ref import Q

SIGLEN = {2: 44, 4: 47, 8: 52, 16: 63, 32: 82, 64: 122, 128: 200, 256: 356, 512: 666, 1024: 1280}
DEGREES = sorted(SIGLEN)
BOUND = {n: ref.BOUNDS[n.bit_length() - 1] for n in DEGREES}
LIMIT = {"KeccakPRNG": 4096, "Blake2sPRNG": 1024}
XOFS = ["KeccakPRNG", "SHAKE", "KeccaXOF", "Blake2sPRNG"]


def stream(xof, data, n):
    if xof == "SHAKE":
        return ref.shake256(data, n)
    if xof == "KeccakPRNG":
        return ref.kprng(data, n)
    if xof == "KeccaXOF":
        h = out = ref.keccak256(data)
        while len(out) < n:
            h = ref.keccak256(h)
            out += h
        return out[:n]
    st, out, i = hashlib.blake2s(data).digest(), b"", 0
    while len(out) < n:
        out += hashlib.blake2s(st + i.to_bytes(8, "big")).digest()
        i += 1
    return out[:n]


def hashed_input(xof, salt, msg):
    return (hashlib.blake2s(salt).digest() if xof == "Blake2sPRNG" else salt) + msg


def h2p(xof, salt, msg, n):
    """None: more than the hash buffer holds."""
    data = hashed_input(xof, salt, msg)
    if len(data) > LIMIT.get(xof, 1 << 60):
        return None
    want = 3 * n + 200
    while True:
        s = stream(xof, data, want)
        out = [w % Q for w in ((s[i] << 8) | s[i + 1] for i in range(0, want, 2)) if w < 5 * Q]
        if len(out) >= n:
            return out[:n]
        want *= 2


def comp(vals):
    """Compressed encoding as a bit string (no cap on the coefficients)."""
    return "".join(("1" if v < 0 else "0") + format(abs(v) & 127, "07b") + "0" * (abs(v) >> 7) + "1" for v in vals)


def bits2bytes(b, length=None):
    n = len(b) if length is None else 8 * length
    n += -n % 8
    b = b.ljust(n, "0")
    return int(b, 2).to_bytes(n // 8, "big") if n else b""


def decomp(enc, slen, n):
    """n coefficients or None: at most slen bytes, everything after the n-th coefficient is zero, no negative zero."""
    if len(enc) > slen:
        return None
    r = ref.comp_decode(enc, n, cap=1 << 40)
    if r is None or any(enc[r[1]:]):
        return None
    return r[0]


def headers(n):
    l = n.bit_length() - 1
    return (0x20 + l, 0x30 + l)


def verdict(n, h, msg, sig, xof):
    """(reason, norm)"""
    if len(sig) < 41 or sig[0] not in headers(n):
        return "header", None
    s1 = decomp(sig[41:], SIGLEN[n] - 41, n)
    if s1 is None:
        return "encoding", None
    c = h2p(xof, sig[1:41], msg, n)
    if c is None:
        return "too-long", None
    s0 = ref.centre(np.asarray(c, dtype=np.int64) - ref.mulq(s1, h))
    nn = ref.norm2(s0, s1)
    return ("ok" if nn <= BOUND[n] else "norm"), nn


def address(words):
    return int.from_bytes(ref.keccak256(b"".join(int(w).to_bytes(32, "big") for w in words))[-20:], "big")


def recover(n, msg, sig, xof, kind):
    """(reason, address or None); kind: epervier (the key is the transform of h) or recovery (h itself)."""
    if len(sig) < 1 or sig[0] != headers(n)[1]:
        return "header", None
    if len(sig) < 41 + 3 * n:
        return "short", None
    s = decomp(sig[41:-3 * n], 2 * SIGLEN[n] - 41, 2 * n)
    if s is None:
        return "encoding", None
    s0, s1 = s[:n], s[n:]
    inv = [int.from_bytes(sig[len(sig) - 3 * n + 3 * i:len(sig) - 3 * n + 3 * i + 3], "big") for i in range(n)]
    if any(v >= Q for v in inv):
        return "inverse-range", None
    if any(int(a) * b % Q != 1 for a, b in zip(ref.ntt([v % Q for v in s1]), inv)):
        return "inverse", None
    if ref.norm2(s0, s1) > BOUND[n]:
        return "norm", None
    c = h2p(xof, sig[1:41], msg, n)
    if c is None:
        return "too-long", None
    t = (ref.ntt(np.asarray(c, dtype=np.int64) - np.asarray(s0)) * np.asarray(inv)) % Q
    return "ok", address(t if kind == "epervier" else ref.intt(t))


def forge(rng, n, c, target=None, spread=1.0):
    """(s0, s1, h) with s0 + s1*h = c and, when target is given, |s0|^2+|s1|^2 == target."""
    while True:
        sc = (BOUND[n] / (2.0 * n)) ** 0.5 * spread
        a = [int(rng.gauss(0, sc)) for _ in range(n)]
        b = [int(rng.gauss(0, sc)) for _ in range(n)]
        if target is not None and n < 8:
            # few coefficients: search the last two
            rest = target - sum(v * v for v in b) - sum(v * v for v in a[:-2])
            x = next((x for x in range(math.isqrt(max(0, rest)) + 1) if math.isqrt(rest - x * x) ** 2 == rest - x * x), None) if rest >= 0 else None
            if x is None:
                continue
            a[-2:] = [x * rng.choice([1, -1]), math.isqrt(rest - x * x) * rng.choice([1, -1])]
        elif target is not None:
            ref.fix_norm(rng, a, b, target)
        ib = ref.invq(b)
        if ib is None or (target is not None and ref.norm2(a, b) != target):
            continue
        return a, b, [int(v) for v in ref.mulq(np.asarray(c, dtype=np.int64) - np.asarray(a), ib)]


def sig_of(n, salt, s1, header=None, pad=True):
    """Signature bytes for s1, or None if they do not fit."""
    b = comp(s1)
    cap = SIGLEN[n] - 41
    if len(b) > 8 * cap:
        return None
    return bytes([headers(n)[0] if header is None else header]) + salt + bits2bytes(b, cap if pad else None)
