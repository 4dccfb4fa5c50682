"""What the precompiles of go-ethereum's table cost and answer, after their EIPs; with the stand-ins of go/chain."""
import hashlib

BAD = None      # refused
# ---- curves over F_p and F_p[i]/(i^2+1); elements are pairs


class Curve:
    def __init__(self, p, b, r=None):
        self.p, self.b, self.r = p, b, r

    def red(self, a, b):
        return a % self.p, b % self.p

    def add(self, x, y):
        return self.red(x[0] + y[0], x[1] + y[1])

    def sub(self, x, y):
        return self.red(x[0] - y[0], x[1] - y[1])

    def mul(self, x, y):
        return self.red(x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])

    def inv(self, x):
        n = pow(x[0] * x[0] + x[1] * x[1], -1, self.p)
        return self.red(x[0] * n, -x[1] * n)

    def rhs(self, x):
        return self.add(self.mul(self.mul(x, x), x), self.b)

    def on(self, P):
        return P == INF or self.mul(P[1], P[1]) == self.rhs(P[0])

    def plus(self, P, Q):
        if P == INF or Q == INF:
            return Q if P == INF else P
        if P[0] == Q[0]:
            if self.add(P[1], Q[1]) == (0, 0):
                return INF
            l = self.mul(self.mul((3, 0), self.mul(P[0], P[0])), self.inv(self.mul((2, 0), P[1])))
        else:
            l = self.mul(self.sub(Q[1], P[1]), self.inv(self.sub(Q[0], P[0])))
        x = self.sub(self.sub(self.mul(l, l), P[0]), Q[0])
        return x, self.sub(self.mul(l, self.sub(P[0], x)), P[1])

    def times(self, k, P):
        R = INF
        for c in bin(k)[2:]:
            R = self.plus(R, R)
            if c == "1":
                R = self.plus(R, P)
        return R

    def sub_ok(self, P):
        return self.times(self.r, P) == INF

    def root(self, a):
        """A square root of a in the field of pairs, or None (p = 3 mod 4)."""
        p = self.p
        if a[1] == 0:
            r = pow(a[0], (p + 1) // 4, p)
            if r * r % p == a[0]:
                return r, 0
            r = pow(-a[0], (p + 1) // 4, p)
            return (0, r) if r * r % p == -a[0] % p else None
        n = (a[0] * a[0] + a[1] * a[1]) % p
        s = pow(n, (p + 1) // 4, p)
        if s * s % p != n:
            return None
        for t in (s, -s):
            h = (a[0] + t) * pow(2, -1, p) % p
            x = pow(h, (p + 1) // 4, p)
            if x * x % p == h and x:
                return x, a[1] * pow(2 * x, -1, p) % p
        return None

    def some(self, rng, ext):
        """A random point, usually outside the subgroup where there is one."""
        while True:
            x = rng.randrange(self.p), rng.randrange(self.p) if ext else 0
            y = self.root(self.rhs(x))
            if y and (ext or y[1] == 0):
                return x, y if rng.random() < .5 else self.sub((0, 0), y)


INF = ((0, 0), (0, 0))
BNP = 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47
BN1 = Curve(BNP, (3, 0))
BN2 = Curve(BNP, (0, 0))
BN2.b = BN2.mul((3, 0), BN2.inv((9, 1)))
BLSP = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
BLSR = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
B1 = Curve(BLSP, (4, 0), BLSR)
B2 = Curve(BLSP, (4, 4), BLSR)
_z = -0xd201000000010000
H1 = (_z - 1) ** 2 // 3
H2 = (_z ** 8 - 4 * _z ** 7 + 5 * _z ** 6 - 4 * _z ** 4 + 6 * _z ** 3 - 4 * _z ** 2 - 4 * _z + 13) // 9
SP = 2 ** 256 - 2 ** 32 - 977
SN = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
SECP = Curve(SP, (7, 0))
SG = ((0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0), (0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8, 0))


def data(b, start, size):
    return b[start:start + size].ljust(size, b"\0")


def num(b):
    return int.from_bytes(b, "big")


def flip(b):
    return bytes(x ^ 0xff for x in b)


# ---- 0x01 .. 0x05, 0x09, 0x0a

def ecrecover(b):
    b = data(b, 0, 128)
    v, r, s = num(b[32:64]), num(b[64:96]), num(b[96:128])
    if v not in (27, 28) or not 0 < r < SN or not 0 < s < SN:
        return b""
    y = SECP.root(SECP.rhs((r, 0)))
    if not y or y[1]:
        return b""
    if y[0] % 2 != v - 27:
        y = -y[0] % SP, 0
    i = pow(r, -1, SN)
    q = SECP.plus(SECP.times(-num(b[:32]) * i % SN, SG), SECP.times(s * i % SN, ((r, 0), y)))
    if q == INF:
        return b""
    return bytes(12) + flip(hashlib.sha256(q[0][0].to_bytes(32, "big") + q[1][0].to_bytes(32, "big")).digest())[12:]


def modexp(b):
    bl, el, ml = (num(data(b, i, 32)) for i in (0, 32, 64))
    b = b[96:]
    if bl == 0 and ml == 0:
        return b""
    base, e, m = num(data(b, 0, bl)), num(data(b, bl, el)), num(data(b, bl + el, ml))
    return (pow(base, e, m) if m else 0).to_bytes(ml, "big")


def modexp_gas(b, new):
    bl, el, ml = (num(data(b, i, 32)) for i in (0, 32, 64))
    b = b[96:]
    head = 0 if bl >= len(b) else num(data(b, bl, min(el, 32)))
    adj = max(head.bit_length() - 1, 0) + (8 * (el - 32) if el > 32 else 0)
    x = max(bl, ml)
    if new:
        return max(200, ((x + 7) // 8) ** 2 * max(adj, 1) // 3)
    c = x * x if x <= 64 else x * x // 4 + 96 * x - 3072 if x <= 1024 else x * x // 16 + 480 * x - 199680
    return c * max(adj, 1) // 20


IV = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179]
SIGMA = [[int(c, 16) for c in r] for r in ("0123456789abcdef ea489fd61c02b753 b8c052fdae367194 7931dcbe265a40f8 905724afe1bc683d"
                                           " 2c6a0b834d75fe19 c51fed4a0763928b db7ec13950f4862a 6fe9b308c2d714a5 a2847615fb9e3cd0").split()]
M64 = 2 ** 64 - 1


def blake2f(b):
    if len(b) != 213 or b[212] > 1:
        return BAD
    le = lambda i: int.from_bytes(b[i:i + 8], "little")
    h, m = [le(4 + 8 * i) for i in range(8)], [le(68 + 8 * i) for i in range(16)]
    v = h + IV
    v[12] ^= le(196)
    v[13] ^= le(204)
    if b[212]:
        v[14] ^= M64
    rot = lambda x, k: (x >> k | x << (64 - k)) & M64
    for r in range(num(b[:4])):
        s = SIGMA[r % 10]
        for i in range(8):
            A, B, C, D = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)][i]
            for k, (p, q) in enumerate(((32, 24), (16, 63))):
                v[A] = (v[A] + v[B] + m[s[2 * i + k]]) & M64
                v[D] = rot(v[D] ^ v[A], p)
                v[C] = (v[C] + v[D]) & M64
                v[B] = rot(v[B] ^ v[C], q)
    return b"".join((h[i] ^ v[i] ^ v[i + 8]).to_bytes(8, "little") for i in range(8))


def kzg_proof(comm, point, claim, tail):
    return hashlib.sha256(comm + point + claim + tail).digest() + tail


def kzg(b):
    if len(b) != 192:
        return BAD
    if b[:32] != b"\x01" + hashlib.sha256(b[96:144]).digest()[1:]:
        return BAD
    if b[144:] != kzg_proof(b[96:144], b[32:64], b[64:96], b[176:]):
        return BAD
    return (4096).to_bytes(32, "big") + BLSR.to_bytes(32, "big")


# ---- bn256

def bn1(b):
    x, y = num(b[:32]), num(b[32:64])
    P = (x, 0), (y, 0)
    return P if x < BNP and y < BNP and BN1.on(P) else BAD


def bn2(b):
    v = [num(b[32 * i:32 * i + 32]) for i in range(4)]
    P = (v[1], v[0]), (v[3], v[2])
    return P if max(v) < BNP and BN2.on(P) else BAD


def bn1_out(P):
    return P[0][0].to_bytes(32, "big") + P[1][0].to_bytes(32, "big")


def bn2_out(P):
    return b"".join(x.to_bytes(32, "big") for x in (P[0][1], P[0][0], P[1][1], P[1][0]))


def bn_add(b):
    P, Q = bn1(data(b, 0, 64)), bn1(data(b, 64, 64))
    return BAD if P is BAD or Q is BAD else bn1_out(BN1.plus(P, Q))


def bn_mul(b):
    P = bn1(data(b, 0, 64))
    return BAD if P is BAD else bn1_out(BN1.times(num(data(b, 64, 32)), P))


def truth(x):
    return bytes(31) + bytes([bool(x)])


def bn_pair(b):
    if len(b) % 192:
        return BAD
    l = b""
    for i in range(0, len(b), 192):
        P, Q = bn1(b[i:i + 64]), bn2(b[i + 64:i + 192])
        if P is BAD or Q is BAD:
            return BAD
        l += b"".join(x.to_bytes(32, "big") for x in (P[0][0], P[1][0], *Q[0], *Q[1]))
    return truth(not b or hashlib.sha256(l).digest()[0] % 2 == 0)


# ---- bls12-381

def fe(b):
    n = num(b)
    return n if n < BLSP else BAD       # the 16 leading bytes included


def fes(b):
    v = [fe(b[i:i + 64]) for i in range(0, len(b), 64)]
    return BAD if BAD in v else v


def b1(b):
    v = fes(b)
    if v is BAD:
        return BAD
    P = (v[0], 0), (v[1], 0)
    return P if B1.on(P) else BAD


def b2(b):
    v = fes(b)
    if v is BAD:
        return BAD
    P = (v[0], v[1]), (v[2], v[3])
    return P if B2.on(P) else BAD


def fout(*v):
    return b"".join(x.to_bytes(64, "big") for x in v)


def b1_out(P):
    return fout(P[0][0], P[1][0])


def b2_out(P):
    return fout(*P[0], *P[1])


def bls_add(C, rd, out, n):
    def f(b):
        if len(b) != 2 * n:
            return BAD
        P, Q = rd(b[:n]), rd(b[n:])
        return BAD if P is BAD or Q is BAD else out(C.plus(P, Q))
    return f


def bls_msm(C, rd, out, n):
    def f(b):
        if not b or len(b) % (n + 32):
            return BAD
        R = INF
        for i in range(0, len(b), n + 32):
            P = rd(b[i:i + n])
            if P is BAD or not C.sub_ok(P):
                return BAD
            R = C.plus(R, C.times(num(b[i + n:i + n + 32]) % BLSR, P))
        return out(R)
    return f


def bls_pair(b):
    if not b or len(b) % 384:
        return BAD
    l = b""
    for i in range(0, len(b), 384):
        P, Q = b1(b[i:i + 128]), b2(b[i + 128:i + 384])
        if P is BAD or Q is BAD or not B1.sub_ok(P) or not B2.sub_ok(Q):
            return BAD
        l += b"".join(x.to_bytes(48, "big") for x in (P[0][0], P[1][0], *Q[0], *Q[1]))
    return truth(hashlib.sha256(l).digest()[0] % 2 == 0)


def map1(b):
    v = fes(b) if len(b) == 64 else BAD
    return BAD if v is BAD else fout(v[0], v[0] * v[0] % BLSP)


def map2(b):
    v = fes(b) if len(b) == 128 else BAD
    return BAD if v is BAD else fout(*v, v[0] * v[0] % BLSP, v[0] * v[1] % BLSP)


def words(b):
    return (len(b) + 31) // 32


def msm_gas(n, mul, step):
    def g(b):
        k = len(b) // (n + 32)
        return k * mul * (1000 - step * min(k - 1, 127)) // 1000 if k else 0
    return g


RUN = {1: ecrecover, 2: lambda b: hashlib.sha256(b).digest(), 3: lambda b: bytes(12) + flip(hashlib.sha1(b).digest()), 4: bytes, 5: modexp,
       6: bn_add, 7: bn_mul, 8: bn_pair, 9: blake2f, 10: kzg, 11: bls_add(B1, b1, b1_out, 128), 12: bls_msm(B1, b1, b1_out, 128),
       13: bls_add(B2, b2, b2_out, 256), 14: bls_msm(B2, b2, b2_out, 256), 15: bls_pair, 16: map1, 17: map2}
GAS = {1: lambda b: 3000, 2: lambda b: 60 + 12 * words(b), 3: lambda b: 600 + 120 * words(b), 4: lambda b: 15 + 3 * words(b),
       9: lambda b: num(b[:4]) if len(b) == 213 else 0, 10: lambda b: 50000, 11: lambda b: 375, 12: msm_gas(128, 12000, 3), 13: lambda b: 600,
       14: msm_gas(256, 22500, 4), 15: lambda b: 37700 + 32600 * (len(b) // 384), 16: lambda b: 5500, 17: lambda b: 23800}
FIRST = {1: 0, 2: 0, 3: 0, 4: 0, 5: 1, 6: 1, 7: 1, 8: 1, 9: 2, 10: 4, **{a: 5 for a in range(11, 18)}, 0x13: 5}


def gas(fork, a, b):
    if a == 5:
        return modexp_gas(b, fork >= 3)
    if a == 6:
        return 150 if fork >= 2 else 500
    if a == 7:
        return 6000 if fork >= 2 else 40000
    if a == 8:
        k = len(b) // 192
        return 45000 + 34000 * k if fork >= 2 else 100000 + 80000 * k
    return GAS[a](b)


def table(fork):
    return sorted(a for a in FIRST if FIRST[a] <= fork)
