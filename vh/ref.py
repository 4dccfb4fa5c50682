"""Independent reference model of what ETHFALCON's formats and predicates say, for use as oracle.
Nothing here imports or mirrors /repo's code: hashing is hashlib/pycryptodome, ring arithmetic is numpy on
explicit evaluation matrices, the formats are written from the documents."""
import functools, hashlib, math
import numpy as np
from Crypto.Hash import keccak as _keccak
from Crypto.Cipher import AES

Q = 12289
N = 512
BOUND = 34034726
PSI = {9: 49, 10: 7}          # 2n-th roots of unity of the documented transform
BOUNDS = [0, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]


def shake256(data, n):
    return hashlib.shake_256(data).digest(n)


def keccak256(data):
    k = _keccak.new(digest_bits=256)
    k.update(data)
    return k.digest()


def kprng(data, n):
    """Keccak256 in counter mode: block i = keccak256(keccak256(data) || be64(i))."""
    st, out, i = keccak256(data), b"", 0
    while len(out) < n:
        out += keccak256(st + i.to_bytes(8, "big"))
        i += 1
    return out[:n]


def xof(mode):
    return kprng if mode == "eth" else shake256


def hash_to_point(data, mode="shake", n=N):
    want = 2 * n + 200
    while True:
        s = xof(mode)(data, want)
        out = []
        for i in range(0, want, 2):
            w = (s[i] << 8) | s[i + 1]
            if w < 61445:
                out.append(w % Q)
                if len(out) == n:
                    return out
        want *= 2


def hash_to_point_consumed(data, mode, n):
    want = 8 * n + 400
    s = xof(mode)(data, want)
    k = 0
    for i in range(0, want, 2):
        if ((s[i] << 8) | s[i + 1]) < 61445:
            k += 1
            if k == n:
                return i + 2
    return None


# ---------------------------------------------------------------- ring Z_q[x]/(x^n+1)
def brv(i, bits):
    return int(format(i, "0%db" % bits)[::-1], 2) if bits else 0


@functools.lru_cache(None)
def _mats(logn):
    n = 1 << logn
    psi = pow(7, 1 << (10 - logn), Q)
    pw = np.array([pow(psi, k, Q) for k in range(2 * n)], dtype=np.int64)
    e = np.array([2 * brv(i, logn) + 1 for i in range(n)], dtype=np.int64)
    ex = (e[:, None] * np.arange(n)[None, :]) % (2 * n)
    V = pw[ex]
    W = (pw[(-ex.T) % (2 * n)] * pow(n, -1, Q)) % Q
    return V, W


def logn_of(n):
    return n.bit_length() - 1


def ntt(a):
    """a evaluated at psi^(2*brv(i)+1)."""
    V, _ = _mats(logn_of(len(a)))
    return (V @ (np.asarray(a, dtype=np.int64) % Q)) % Q


def intt(a):
    _, W = _mats(logn_of(len(a)))
    return (W @ (np.asarray(a, dtype=np.int64) % Q)) % Q


def mulq(a, b):
    """Schoolbook product mod x^n+1, mod q."""
    a = np.asarray(a, dtype=np.int64) % Q
    b = np.asarray(b, dtype=np.int64) % Q
    n = len(a)
    c = np.convolve(a, b)
    c = np.concatenate([c, np.zeros(2 * n - len(c), dtype=np.int64)])
    return (c[:n] - c[n:2 * n]) % Q


def inv_vec(v):
    return np.array([pow(int(x), -1, Q) for x in v], dtype=np.int64)


def invq(a):
    """Inverse in the ring, or None."""
    t = ntt(a)
    if (t == 0).any():
        return None
    return intt(inv_vec(t))


def centre(a):
    a = np.asarray(a, dtype=np.int64) % Q
    return np.where(a > Q // 2, a - Q, a)


def norm2(*ps):
    return sum(int((np.asarray(p, dtype=np.int64) ** 2).sum()) for p in ps)


def mulz(a, b):
    """Exact integer product mod x^n+1 (python ints)."""
    n = len(a)
    if max((abs(int(x)) for x in a), default=0) * max((abs(int(x)) for x in b), default=0) * n < 2 ** 62:
        c = np.convolve(np.asarray(a, dtype=np.int64), np.asarray(b, dtype=np.int64))
        c = np.concatenate([c, np.zeros(2 * n - len(c), dtype=np.int64)])
        return [int(x) for x in c[:n] - c[n:2 * n]]
    c = np.convolve(np.asarray([int(x) for x in a], dtype=object), np.asarray([int(x) for x in b], dtype=object))
    c = list(c) + [0] * (2 * n - len(c))
    return [int(c[i]) - int(c[i + n]) for i in range(n)]


# ---------------------------------------------------------------- bit formats
class Bits:
    def __init__(self, data):
        self.v, self.n, self.p = int.from_bytes(data, "big"), 8 * len(data), 0

    def take(self, k):
        if self.p + k > self.n:
            return None
        self.p += k
        return (self.v >> (self.n - self.p)) & ((1 << k) - 1)


def pack(vals, bits):
    """Fixed width big-endian bit packing, zero padded to bytes."""
    v = 0
    for x in vals:
        v = (v << bits) | (int(x) & ((1 << bits) - 1))
    tot = len(vals) * bits
    pad = -tot % 8
    return (v << pad).to_bytes((tot + pad) // 8, "big")


def unpack(data, bits, n):
    """(values, canonical padding?) of the first ceil(n*bits/8) bytes or None if too short."""
    ln = (n * bits + 7) // 8
    if len(data) < ln:
        return None
    v = int.from_bytes(data[:ln], "big")
    pad = 8 * ln - n * bits
    ok = (v & ((1 << pad) - 1)) == 0
    v >>= pad
    m = (1 << bits) - 1
    return [(v >> (bits * (n - 1 - i))) & m for i in range(n)], ok


def modq_encode(x, bits=14):
    if any(not 0 <= int(v) < Q for v in x):
        return None
    return pack(x, bits)


def modq_decode(data, n=N, bits=14):
    r = unpack(data, bits, n)
    if r is None or not r[1] or any(v >= Q for v in r[0]):
        return None
    return r[0]


def trim_encode(x, bits):
    m = (1 << (bits - 1)) - 1
    if any(abs(int(v)) > m for v in x):
        return None
    return pack(x, bits)


def trim_decode(data, n, bits):
    r = unpack(data, bits, n)
    if r is None or not r[1]:
        return None
    h = 1 << (bits - 1)
    if any(v == h for v in r[0]):
        return None
    return [v - (h << 1) if v & h else v for v in r[0]]


def comp_bits(x):
    return sum(8 + (abs(int(v)) >> 7) + 1 for v in x)


def comp_encode(x, cap=2047):
    if any(abs(int(v)) > cap for v in x):
        return None
    s = []
    for v in x:
        v = int(v)
        a = abs(v)
        s.append("1" if v < 0 else "0")
        s.append(format(a & 127, "07b"))
        s.append("0" * (a >> 7) + "1")
    s = "".join(s)
    s += "0" * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, "big")


def comp_decode(data, n=N, cap=2047):
    """(values, bytes used) or None."""
    v, tot, p = int.from_bytes(data, "big"), 8 * len(data), 0
    s = format(v, "0%db" % tot) if tot else ""
    out = []
    for _ in range(n):
        if p + 9 > tot:
            return None
        sign, low = s[p] == "1", int(s[p + 1:p + 8], 2)
        p += 8
        k = s.find("1", p)
        lim = (cap - low) // 128
        if k < 0 or k - p > lim:
            return None
        m = low + 128 * (k - p)
        p = k + 1
        if sign and m == 0:
            return None
        out.append(-m if sign else m)
    used = (p + 7) // 8
    if "1" in s[p:8 * used]:
        return None
    return out, used


# ---------------------------------------------------------------- keys and signatures
def pk_decode(pk, zk):
    """h in coefficient form (list) or None."""
    if zk:
        if len(pk) < 1025 or pk[0] != 9:
            return None
        t = modq_decode(pk[1:1025], N, 16)
        return None if t is None else [int(v) for v in intt(t)]
    if len(pk) < 897 or pk[0] != 9:
        return None
    return modq_decode(pk[1:897], N, 14)


def pk_encode(h, zk):
    if zk:
        return b"\x09" + pack(ntt(h), 16)
    return b"\x09" + pack([int(v) % Q for v in h], 14)


def sk_decode(sk):
    if len(sk) != 1281 or sk[0] != 0x59:
        return None
    f = trim_decode(sk[1:1 + 384], N, 6)
    g = trim_decode(sk[385:385 + 384], N, 6)
    F = trim_decode(sk[769:769 + 512], N, 8)
    if f is None or g is None or F is None:
        return None
    return f, g, F


def sk_encode(f, g, F):
    return b"\x59" + pack(f, 6) + pack(g, 6) + pack(F, 8)


def sig16_decode(b):
    """16-bit format: residues mod q, canonical; centred."""
    t = modq_decode(b, N, 16)
    return None if t is None else [v - Q if v > Q // 2 else v for v in t]


def s1_of(hm, s2, h):
    return centre(np.asarray(hm, dtype=np.int64) - mulq(s2, h))


def falcon_predicate(hm, s2, h, bound=BOUND):
    return norm2(s1_of(hm, s2, h), s2) <= bound


def open_verdict(sm, pk, mode, zk):
    """What 'signed message sm opens under pk' means: (reason, message or None)."""
    h = pk_decode(pk, zk)
    if h is None:
        return "bad-pk", None
    if len(sm) < 42:
        return "short", None
    sl = (sm[0] << 8) | sm[1]
    if sl > len(sm) - 42:
        return "siglen", None
    msg = sm[42:len(sm) - sl]
    e = sm[len(sm) - sl:]
    if sl < 1 or e[0] != 0x29:
        return "header", None
    if zk:
        s2 = sig16_decode(e[1:]) if len(e) == 1025 else None
    else:
        r = comp_decode(e[1:])
        s2 = r[0] if r is not None and r[1] == len(e) - 1 else None
    if s2 is None:
        return "encoding", None
    data = sm[2:42] + msg
    if mode == "eth" and len(data) > 4096:
        return "too-long", None
    hm = hash_to_point(data, mode)
    if not falcon_predicate(hm, s2, h):
        return "norm", None
    return "ok", msg


def epervier_parts(sm):
    """(nonce, msg, s1, s2, hint) or None."""
    if len(sm) < 42:
        return None
    sl = (sm[0] << 8) | sm[1]
    if sl != 2052 or sl > len(sm) - 42:
        return None
    msg, e = sm[42:len(sm) - sl], sm[len(sm) - sl:]
    if e[0] != 0x29 or e[1025] != 0x29:
        return None
    s1, s2 = sig16_decode(e[1:1025]), sig16_decode(e[1026:2050])
    if s1 is None or s2 is None:
        return None
    return sm[2:42], msg, s1, s2, (e[2050] << 8) | e[2051]


def epervier_recover(hm, s1, s2):
    """NTT(h) for h = (hm - s1)/s2, or None."""
    if norm2(s1, s2) > BOUND:
        return None
    t = ntt(s2)
    if (t == 0).any():
        return None
    return (ntt(np.asarray(hm) - np.asarray(s1)) * inv_vec(t)) % Q


def hint_of(s2):
    p = 1
    for v in ntt(s2):
        p = p * int(v) % Q
    return pow(p, -1, Q) if p else None


# ---------------------------------------------------------------- deterministic generators
class Ctr_drbg:
    """NIST SP 800-90A AES-256 CTR_DRBG without derivation function, as the KAT programs use it."""

    def __init__(self, entropy, pers=None):
        self.K, self.V = bytes(32), 0
        seed = bytes(a ^ b for a, b in zip(entropy, pers)) if pers else entropy
        self._update(seed)

    def _block(self):
        self.V = (self.V + 1) % (1 << 128)
        return AES.new(self.K, AES.MODE_ECB).encrypt(self.V.to_bytes(16, "big"))

    def _update(self, data):
        t = b"".join(self._block() for _ in range(3))
        if data:
            t = bytes(a ^ b for a, b in zip(t, data))
        self.K, self.V = t[:32], int.from_bytes(t[32:], "big")

    def random_bytes(self, n):
        t = b""
        while len(t) < n:
            t += self._block()
        self._update(None)
        return t[:n]


def chacha_block(key8, nonce4, rounds=20):
    """ChaCha20 block on (8 key words, 4 counter/nonce words), all 32 bit."""
    M = 0xFFFFFFFF
    C = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
    s = C + list(key8) + list(nonce4)
    x = list(s)

    def qr(a, b, c, d):
        x[a] = (x[a] + x[b]) & M; x[d] ^= x[a]; x[d] = ((x[d] << 16) | (x[d] >> 16)) & M
        x[c] = (x[c] + x[d]) & M; x[b] ^= x[c]; x[b] = ((x[b] << 12) | (x[b] >> 20)) & M
        x[a] = (x[a] + x[b]) & M; x[d] ^= x[a]; x[d] = ((x[d] << 8) | (x[d] >> 24)) & M
        x[c] = (x[c] + x[d]) & M; x[b] ^= x[c]; x[b] = ((x[b] << 7) | (x[b] >> 25)) & M
    for _ in range(rounds // 2):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return [(a + b) & M for a, b in zip(x, s)]


class FalconPrng:
    """ChaCha20 keyed with 56 bytes; eight blocks interleaved word by word into 512 bytes."""

    def __init__(self, seed56):
        w = [int.from_bytes(seed56[4 * i:4 * i + 4], "little") for i in range(14)]
        self.w, self.cc = w[:12], w[12] | (w[13] << 32)
        self.refill()

    def refill(self):
        buf = bytearray(512)
        for u in range(8):
            k = self.w[:8]
            n = [self.w[8], self.w[9], self.w[10] ^ (self.cc & 0xFFFFFFFF), self.w[11] ^ (self.cc >> 32)]
            b = chacha_block(k, n)
            self.cc = (self.cc + 1) & (2 ** 64 - 1)
            for v in range(16):
                buf[(u << 2) + (v << 5):(u << 2) + (v << 5) + 4] = b[v].to_bytes(4, "little")
        self.buf, self.ptr = bytes(buf), 0

    def get_bytes(self, n):
        out = b""
        while n > 0:
            c = min(512 - self.ptr, n)
            out += self.buf[self.ptr:self.ptr + c]
            self.ptr += c
            n -= c
            if self.ptr == 512:
                self.refill()
        return out

    def u64(self):
        if self.ptr >= 503:
            self.refill()
        v = int.from_bytes(self.buf[self.ptr:self.ptr + 8], "little")
        self.ptr += 8
        return v

    def u8(self):
        v = self.buf[self.ptr]
        self.ptr += 1
        if self.ptr == 512:
            self.refill()
        return v


# ---------------------------------------------------------------- forging material with a chosen norm
def forge(rng, hm, target=None, s1=None, s2=None, scale=165):
    """Random short (s1, s2) (optionally with total norm exactly `target`) and the h that makes them satisfy
    s1 + s2*h = hm. Returns (s1, s2, h)."""
    while True:
        a = list(s1) if s1 is not None else [int(rng.gauss(0, scale)) for _ in range(N)]
        b = list(s2) if s2 is not None else [int(rng.gauss(0, scale)) for _ in range(N)]
        if target is not None:
            fix_norm(rng, a, b, target)
        ib = invq(b)
        if ib is None:
            if s2 is not None:
                return None
            continue
        h = mulq(np.asarray(hm) - np.asarray(a), ib)
        return a, b, [int(v) for v in h]


def fix_norm(rng, a, b, target):
    """Change a few coefficients of a so that |a|^2+|b|^2 == target exactly (greedy sum of squares)."""
    idx = rng.sample(range(len(a)), min(48, len(a)))
    for i in idx:
        a[i] = 0
    while norm2(a, b) > target:
        for v in (a, b):
            for i in range(len(v)):
                v[i] = int(v[i] * 0.95)
    rest = target - norm2(a, b)
    top = rng.choice([2000, 2000, 1400, 6000])
    for i in idx:
        m = min(math.isqrt(rest), top)
        a[i] = m if rng.random() < .5 else -m
        rest -= m * m
    assert rest == 0 and norm2(a, b) == target
