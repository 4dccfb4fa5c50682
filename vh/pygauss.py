"""The Gaussian samplers of the specification, over exact or double arithmetic of their own: samplerz on a byte source,
and the nearest-plane sampler over a basis by QR instead of the Falcon tree."""
import hashlib, math
import numpy as np
from . import ref

RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903,
        8595902006365044063, 1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299,
        638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
SIGMA0 = 1.8205
SIGMA = {2: 144.81253976308423, 4: 146.83798833523608, 8: 148.83587593064718, 16: 151.78340713845503, 32: 154.6747794602761,
         64: 157.51308555044122, 128: 160.30114421975344, 256: 163.04153322607107, 512: 165.7366171829776, 1024: 168.38857144654395}
SIGMIN = {2: 1.1165085072329104, 4: 1.1321247692325274, 8: 1.147528535373367, 16: 1.170254078853483, 32: 1.1925466358390344,
          64: 1.2144300507766141, 128: 1.235926056771981, 256: 1.2570545284063217, 512: 1.2778336969128337, 1024: 1.298280334344292}


class Close(Exception):
    """The verdict hangs on rounding errors."""


def samplerz(mu, sigma, sigmin, read, eps=1e-8):
    s = math.floor(mu)
    r = mu - s
    if min(r, 1 - r) < eps:
        raise Close
    while True:
        u = int.from_bytes(read(9), "little")
        z0 = sum(u < t for t in RCDT)
        b = read(1)[0] & 1
        z = b + (2 * b - 1) * z0
        x = (z - r) ** 2 / (2 * sigma * sigma) - z0 ** 2 / (2 * SIGMA0 * SIGMA0)
        p = sigmin / sigma * math.exp(-x)
        p64 = max(0, int(p * 2.0 ** 64) - 1)
        err = p * 2.0 ** 64 * eps
        for i in range(56, -8, -8):
            lo = p64 & ((1 << i) - 1)
            if i and p64 >> i and min(lo, (1 << i) - lo) < err:
                raise Close
            w = read(1)[0] - ((p64 >> i) & 255)
            if w or i < 24:
                break
        if not w:
            raise Close
        if w < 0:
            return z + s


class Basis:
    """Rows x^k*(p0, p1) of a list of pairs of polynomials, in the order the fast Fourier recursion implies."""

    def __init__(self, pairs):
        n = self.n = len(pairs[0][0])
        lg = n.bit_length() - 1
        order = [ref.brv(i, lg) for i in range(n)]
        rows, self.where = [], []
        for j, (p0, p1) in enumerate(pairs):
            for k in order:
                rows.append(np.concatenate([self.shift(p0, k), self.shift(p1, k)]))
                self.where.append((j, k))
        self.B = np.array(rows, dtype=float)
        Qm, R = np.linalg.qr(self.B.T)
        self.gs = (Qm * np.diag(R)).T      # Gram-Schmidt vectors
        self.nn = np.diag(R) ** 2
        # the recursion visits from the last pair to the first, the even half of a pair first
        m = len(rows)
        self.visit = [i for p in range(m - 2, -1, -2) for i in (p, p + 1)]

    @staticmethod
    def shift(p, k):
        p = np.asarray(p)
        return np.concatenate([-p[len(p) - k:], p[:len(p) - k]]) if k else p

    def walk(self, target, pick):
        """z (one coefficient list per pair): pick(mu, index) chooses each coordinate."""
        c = np.array(target, dtype=float)
        z = [[0] * self.n for _ in range(len(self.where) // self.n)]
        for i in self.visit:
            mu = float(c @ self.gs[i]) / self.nn[i]
            v = pick(mu, i)
            j, k = self.where[i]
            z[j][k] = v
            c -= v * self.B[i]
        return z


def basis(key):
    f, g, F, G = key
    return Basis([(g, [-v for v in f]), (G, [-v for v in F])])


def preimage(key, B, point, read):
    """s with s0 + s1*h = point from the byte source read."""
    n = len(point)
    sd = SIGMA[n] / np.sqrt(B.nn)
    z = B.walk(list(point) + [0] * n, lambda mu, i: samplerz(mu, float(sd[i]), SIGMIN[n], read))
    f, g, F, G = key
    v0 = [a + b for a, b in zip(ref.mulz(z[0], g), ref.mulz(z[1], G))]
    v1 = [a + b for a, b in zip(ref.mulz(z[0], f), ref.mulz(z[1], F))]
    return [p - v for p, v in zip(point, v0)], [int(v) for v in v1]


class ChaCha:
    """The byte source of the signer: ChaCha20 in groups of eight interleaved blocks; a request that the rest of a
    group cannot satisfy starts the next group."""

    def __init__(self, seed):
        self.g = ref.FalconPrng(seed)

    def read(self, k):
        if self.g.ptr + k > 512:
            self.g.refill()
        o = self.g.buf[self.g.ptr:self.g.ptr + k]
        self.g.ptr += k
        return o


class Stream:
    def __init__(self, data):
        self.d, self.n, self.p = data, 4096, 0
        self.b = hashlib.shake_256(data).digest(self.n)

    def read(self, k):
        while self.p + k > self.n:
            self.n *= 4
            self.b = hashlib.shake_256(self.d).digest(self.n)
        o = self.b[self.p:self.p + k]
        self.p += k
        return o
