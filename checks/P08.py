"""P08: the Python samplers and generators are the specified functions of their random bytes, and sample the specified
distributions."""
import math, os, sys
from decimal import Decimal as Dec, getcontext
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from scipy import stats
from vh import pool, pyref, pygauss, ref
from vh.pygauss import RCDT, SIGMA0, SIGMIN

getcontext().prec = 60
P_MIN = 1e-12


class Src:
    """Random bytes: the given ones, then pseudo-random ones; counts what is read."""

    def __init__(self, r, head=b""):
        self.r, self.head, self.n, self.calls = r, head, 0, []

    def __call__(self, k):
        self.calls.append(k)
        h = self.head[self.n:self.n + k]
        self.n += k
        return h + self.r.randbytes(k - len(h))


def table(w, n):
    """basesampler around each threshold; the thresholds against the half-Gaussian."""
    from samplerz import basesampler
    import samplerz as S
    r = w.rng

    def ask(v):
        s = Src(r, v.to_bytes(9, "little"))
        w.now({"v": v})
        g = basesampler(randombytes=s)
        w.ev("table-points")
        w.case(("t", v))
        if g != sum(v < t for t in RCDT) or s.n != 9:
            w.violation("basesampler", "the 72-bit draw %d gives %d (%d bytes read)" % (v, g, s.n), {"v": v})
    for t in RCDT:
        for d in (-2, -1, 0, 1, 2, 1 << 24, -(1 << 24), 1 << 48, -(1 << 48), 1 << 56, -(1 << 56), 1 << 64, -(1 << 64)):
            if 0 <= t + d < 1 << 72:
                ask(t + d)
    for v in (0, (1 << 72) - 1, 1 << 71, 1 << 64, (1 << 64) - 1, 1 << 8, 255):
        ask(v)
    for _ in range(n):
        ask(r.getrandbits(r.randrange(1, 73)))
    # the table itself: 2^72 times the tail of the half-Gaussian of deviation 1.8205
    rho = [(-(Dec(z) ** 2) / (2 * Dec("1.8205") ** 2)).exp() for z in range(60)]
    tot = sum(rho)
    for i, t in enumerate(RCDT):
        tail = sum(rho[i + 1:]) / tot * (Dec(2) ** 72)
        if abs(tail - t) > 10:
            w.violation("table", "the oracle's own table is off at %d" % i, {})
    x = list(getattr(S, "RCDT", RCDT))
    if x != RCDT:
        w.violation("basesampler", "the table is not the specified one", {"table": x})


def expo(w, n):
    """approxexp against the exponential, berexp against the exact comparison."""
    from samplerz import approxexp, berexp
    r = w.rng
    worst = Dec(0)
    for i in range(n):
        x = r.choice([0.0, r.random() * math.log(2), math.log(2) * (1 - 1e-12), 1e-15, r.random() ** 5 * math.log(2)])
        ccs = r.choice([1.0, .5, r.uniform(.6, 1), r.uniform(.01, 1), 2.0 ** -20])
        w.now({"x": x, "ccs": ccs})
        v = approxexp(x, ccs)
        e = Dec(2) ** 63 * 2 * Dec(ccs) * (-Dec(x)).exp()
        d = abs(Dec(v) - e) / e
        # documented as 2^63*ccs*exp(-x); the code (as the C one) carries one bit more
        w.ev("exponentials")
        w.case(("x", x, ccs))
        if min(d, abs(Dec(v) - e / 2) / (e / 2)) > Dec(2) ** -44 + 4 / e:
            w.violation("approxexp", "approxexp(%r, %r) = %d, should be near %d" % (x, ccs, v, int(e)), {"x": x, "ccs": ccs})
        # the bit: bytes just below and just above the exact probability
        x = r.choice([x, r.uniform(0, 3), r.uniform(0, 20), r.uniform(0, 43), 0.0])
        p = Dec(ccs) * (-Dec(x)).exp()
        t = p * Dec(2) ** 64
        slack = t * Dec(2) ** -36 + 2
        for side in (-1, 1, 0):
            u = int(t + side * slack) if side else r.getrandbits(64)
            if not 0 <= u < 1 << 64 or abs(u - t) < slack / 2:
                continue
            s = Src(r, u.to_bytes(8, "big"))
            b = berexp(x, ccs, randombytes=s)
            w.ev("bernoulli")
            if s.n > 8 or bool(b) != (u < t):
                w.violation("berexp", "berexp(%r, %r) on the bytes %016x is %r; the probability is %.20f" % (x, ccs, u, b, float(p)), {"x": x, "ccs": ccs, "bytes": u})
        # far down the tail: the shift stops at 63, so the probability never falls to zero before the table of the exponential does
        sh = r.choice([60, 61, 62, 63, 64, 65, 70, 128, 1000])
        rem = r.uniform(0.01, .95) * math.log(2)
        x, ccs = sh * math.log(2) + rem, r.choice([1.0, 1.0, r.uniform(.5, 1)])
        t = Dec(2) ** 64 * Dec(ccs) * (-(Dec(x) - sh * Dec(2).ln())).exp() / 2 ** min(sh, 63)
        if abs(t - round(t)) < Dec("1e-4"):
            continue
        u = r.choice([0, 0, 1, 2, 3, 7, 255, 256])
        s = Src(r, u.to_bytes(8, "big"))
        b = berexp(x, ccs, randombytes=s)
        w.ev("bernoulli-tail")
        if bool(b) != (u < int(t)):
            w.violation("berexp-tail", "berexp(%r, %r) on the bytes %016x is %r, should be %r" % (x, ccs, u, b, u < int(t)), {"x": x, "ccs": ccs, "bytes": u})


def scripted(w, n):
    """samplerz on given bytes against the model, bytes read included."""
    from samplerz import samplerz
    r = w.rng
    for i in range(n):
        deg = r.choice(sorted(SIGMIN))
        sigmin = SIGMIN[deg]
        sigma = r.choice([sigmin, r.uniform(sigmin, 1.8205), 1.8204, 1.82])
        mu = r.choice([r.uniform(-1, 1), r.gauss(0, 100), r.gauss(0, 1e4), -r.random(), r.randrange(-5, 5) + r.choice([.5, .25, .999, 1e-4])])
        head = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(r.randrange(60)))
        seed = r.getrandbits(60)
        case = {"mu": mu, "sigma": sigma, "sigmin": sigmin, "head": head, "seed": seed}
        w.now(case)
        import random
        a, b = Src(random.Random(seed), head), Src(random.Random(seed), head)
        try:
            want = pygauss.samplerz(mu, sigma, sigmin, b)
        except pygauss.Close:
            w.ev("too-close")
            continue
        got = samplerz(mu, sigma, sigmin, a)
        w.ev("scripted")
        w.ev("rejections", sum(1 for k in b.calls if k == 9) - 1)
        w.case(repr(case))
        if got != want or a.n != b.n:
            w.violation("samplerz", "samplerz(%r, %r, %r) = %d after %d bytes, should be %d after %d" % (mu, sigma, sigmin, got, a.n, want, b.n), case)


def chi(w, key, what, counts, probs, n, case):
    """Chi-square with rare cells pooled."""
    obs, ex, po, pe = [], [], 0, 0.0
    for k in sorted(set(counts) | set(probs)):
        e = probs.get(k, 0.0) * n
        if e < 8:
            po, pe = po + counts.get(k, 0), pe + e
        else:
            obs.append(counts.get(k, 0))
            ex.append(e)
    if pe > 5:
        obs.append(po)
        ex.append(pe)
    elif po > 40 + 10 * pe:
        w.violation(key, "%s: %d samples where %.3g are expected" % (what, po, pe), case)
    f = sum(obs) / sum(ex)
    p = stats.chisquare(obs, [e * f for e in ex]).pvalue
    w.ev("distributions")
    w.sample({"what": what, "samples": n, "p": float(p)}, limit=8)
    if p < P_MIN:
        w.violation(key, "%s: chi-square p = %g" % (what, p), case)


def gaussian(mu, sigma):
    w = int(12 * sigma) + 8
    z = np.arange(math.floor(mu) - w, math.floor(mu) + w + 1)
    p = np.exp(-(z - mu) ** 2 / (2 * sigma * sigma))
    p /= p.sum()
    return {int(k): float(v) for k, v in zip(z, p)}


def count(xs):
    c = {}
    for x in xs:
        c[int(x)] = c.get(int(x), 0) + 1
    return c


def spread(w, n):
    """The distributions."""
    from samplerz import samplerz, basesampler
    r = w.rng
    src = r.randbytes
    for i in range(3):
        deg = r.choice(sorted(SIGMIN))
        sigma = [SIGMIN[deg], 1.82, r.uniform(SIGMIN[deg], 1.82)][i]
        mu = [r.random(), -r.uniform(0, 40), r.choice([0.0, .5, 1234.25])][i]
        w.now({"mu": mu, "sigma": sigma})
        xs = [samplerz(mu, sigma, SIGMIN[deg], src) for _ in range(n)]
        w.case(repr((mu, sigma)))
        chi(w, "samplerz-distribution", "samplerz(%r, %r)" % (mu, sigma), count(xs), gaussian(mu, sigma), n, {"mu": mu, "sigma": sigma})
    xs = [basesampler(randombytes=src) for _ in range(n)]
    h = {z: math.exp(-z * z / (2 * SIGMA0 ** 2)) for z in range(25)}
    t = sum(h.values())
    chi(w, "basesampler-distribution", "basesampler", count(xs), {k: v / t for k, v in h.items()}, n, {})


def keygauss(w, n):
    """The coefficients of f and g: gen_poly and mkgauss."""
    from ntrugen import gen_poly
    from mkgauss import mkgauss, poly_small_mkgauss
    r = w.rng
    for deg in (64, 512, 1024):
        lg = deg.bit_length() - 1
        sigma = 1.17 * math.sqrt(12289 / (2 * deg))
        # sums of 4096/deg or 1024/deg integer Gaussians: a Gaussian of the whole deviation
        xs = []
        while len(xs) < n // 4:
            xs += list(gen_poly(deg, randombytes=r.randbytes).coeffs)
        w.case(("gen", deg))
        xs = [x if x < 6145 else x - 12289 for x in map(int, xs)]
        chi(w, "gen_poly", "gen_poly(%d)" % deg, count(xs), gaussian(0, sigma), len(xs), {"n": deg})
        xs = [mkgauss(r.randbytes, lg) for _ in range(n // (1 if deg > 64 else 8))]
        chi(w, "mkgauss", "mkgauss(%d)" % lg, count(xs), gaussian(0, sigma), len(xs), {"logn": lg})
        for _ in range(6):
            p = poly_small_mkgauss(r.randbytes, deg, lg)
            w.ev("small-polys")
            if len(p) != deg or sum(p) % 2 != 1 or max(map(abs, p)) > 127:
                w.violation("poly_small", "poly_small_mkgauss gives a polynomial of even sum, other length or large coefficients", {"p": p})
    # the sampler on scripted words: the sign and zero test of the first, the tail of the second
    G = KEY_TABLE
    for i in range(n // 8):
        a = r.choice([0, G[0] - 1, G[0], G[0] + 1, r.getrandbits(63), (1 << 63) - 1]) | r.getrandbits(1) << 63
        k = r.randrange(1, len(G))
        b = max(0, r.choice([G[k] - 1, G[k], G[k] + 1, r.getrandbits(r.randrange(1, 64))])) | r.getrandbits(1) << 63
        src = Src(r, a.to_bytes(8, "little") + b.to_bytes(8, "little"))
        want = key_draw(a, b)
        got = mkgauss(src, 10)
        w.ev("mkgauss-words")
        w.case(("mk", a, b))
        if got != want or src.n != 16:
            w.violation("mkgauss", "mkgauss on words %016x %016x is %d, should be %d" % (a, b, got, want), {"a": a, "b": b})
    # whole polynomials, small degrees included, where values beyond 127 and the wrong parity are common
    import random
    for i in range(max(60, n // 200)):
        lg = r.randrange(1, 11) if i % 4 == 0 else r.randrange(1, 5)
        seed = r.getrandbits(60)
        head = b""
        if i % 2:   # words that make up chosen values, at the limits
            head = b"".join(words(r.choice([127, 128, -127, -128, 129, -129, 0, 1, r.randrange(-140, 140)]), lg, r) for _ in range(r.randrange(1, 8)))
        a, b = Src(random.Random(seed), head), Src(random.Random(seed), head)
        w.now({"logn": lg, "seed": seed, "head": head})
        got = [int(v) for v in poly_small_mkgauss(a, 1 << lg, lg)]
        want, out = key_poly(b, lg)
        w.ev("small-polys-modelled")
        w.ev("small-poly-rejects", out)
        w.case(("poly", lg, seed))
        if got != want or a.n != b.n:
            w.violation("poly_small", "poly_small_mkgauss(logn %d) gives %r after %d bytes, should be %r after %d" % (lg, got[:16], a.n, want[:16], b.n), {"logn": lg, "seed": seed, "head": head})


# Falcon's table for the coefficients of f and g at degree 1024: 2^63 times P(0), then 2^63 times P(|x| > k given x != 0)
KEY_TABLE = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527,
             242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641,
             23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]


def key_draw(a, b):
    m = (1 << 63) - 1
    if a & m < KEY_TABLE[0]:
        return 0
    v = next(j for j in range(1, 27) if b & m >= KEY_TABLE[j])
    return -v if a >> 63 else v


def words(v, lg, r):
    """Random bytes on which the coefficient drawn at degree 2^lg is v."""
    g = 1 << (10 - lg)
    parts = [0] * g
    for _ in range(abs(v)):
        while True:
            k = r.randrange(g)
            if abs(parts[k]) < 26 or g * 26 < abs(v):
                break
        parts[k] += 1 if v > 0 else -1
    top = (1 << 63) - 1
    out = b""
    for p in parts:
        p = max(-26, min(26, p))
        out += ((0 if p == 0 else top) | (1 << 63 if p < 0 else 0)).to_bytes(8, "little") + KEY_TABLE[abs(p) or 1].to_bytes(8, "little")
    return out


def key_poly(src, lg):
    def draw():
        return sum(key_draw(int.from_bytes(src(8), "little"), int.from_bytes(src(8), "little")) for _ in range(1 << (10 - lg)))
    p, out = [], 0
    while len(p) < 1 << lg:
        v = draw()
        if abs(v) > 127 or len(p) == (1 << lg) - 1 and (sum(p) + v) % 2 == 0:
            out += 1
            continue
        p.append(v)
    return p, out


def chacha(w, n):
    from rng import ChaCha20
    r = w.rng
    for i in range(n):
        seed = bytearray(r.randbytes(56))
        if r.random() < .4:  # the counter wraps at 32 and at 64 bits
            seed[48:56] = (r.choice([2 ** 32, 2 ** 64, 2 ** 63, 2 ** 33]) - r.randrange(1, 20)).to_bytes(8, "little")
        A, M = ChaCha20(bytes(seed)), pygauss.ChaCha(bytes(seed))
        B = None
        log = []
        for _ in range(r.randrange(5, 120)):
            k = r.choice([1, 9, 1, 8, 1, r.randrange(1, 60), 512 if r.random() < .1 else 3])
            log.append(k)
            w.now({"seed": bytes(seed), "reads": log})
            g, e = A.randombytes(k), M.read(k)
            w.ev("chacha-reads")
            if bytes(g) != e:
                w.violation("chacha", "read %d (of %d bytes) differs from ChaCha20" % (len(log), k), {"seed": bytes(seed), "reads": log})
                break
            if B is None and r.random() < .05:
                B = ChaCha20(r.randbytes(56))
                B.randombytes(5)
        w.case((bytes(seed), repr(log)))


class Drbg:
    """SP 800-90A CTR_DRBG, AES-256, no derivation function."""

    def __init__(self, seed, pers=b""):
        from Crypto.Cipher import AES
        self.A, self.K, self.V = AES, bytes(32), 0
        self.update(bytes(a ^ b for a, b in zip(seed, pers.ljust(48, b"\0"))))

    def block(self):
        self.V = (self.V + 1) % (1 << 128)
        return self.A.new(self.K, self.A.MODE_ECB).encrypt(self.V.to_bytes(16, "big"))

    def update(self, d):
        t = bytes(a ^ b for a, b in zip(self.block() + self.block() + self.block(), d))
        self.K, self.V = t[:32], int.from_bytes(t[32:], "big")

    def read(self, n, add=None):
        a = bytes(48)
        if add is not None:
            a = add.ljust(48, b"\0")
            self.update(a)
        o = b""
        while len(o) < n:
            o += self.block()
        self.update(a)
        return o[:n]


def drbg(w, n):
    from drbg.aes256_ctr_drbg import AES256_CTR_DRBG as D
    r = w.rng
    fresh = set()
    for i in range(n):
        seed = r.randbytes(48)
        pers = r.choice([b"", r.randbytes(r.randrange(1, 49)), bytes(48)])
        w.now({"seed": seed, "pers": pers})
        a, m = D(seed, pers), Drbg(seed, pers)
        if i % 7 == 0:  # a counter about to wrap
            v = (1 << 128) - r.randrange(1, 6)
            if hasattr(a, "V"):
                a.V = v.to_bytes(16, "big")
                m.V = v
        for _ in range(r.randrange(1, 8)):
            k = r.choice([0, 1, 15, 16, 17, 40, 48, r.randrange(300)])
            add = r.choice([None, None, b"", r.randbytes(r.randrange(1, 49))])
            g, e = a.random_bytes(k, add), m.read(k, add)
            w.ev("drbg-reads")
            w.case((seed, pers, k, add))
            if g != e:
                w.violation("drbg", "the DRBG differs from SP 800-90A", {"seed": seed, "pers": pers, "k": k, "additional": add})
                break
        for f, x in ((lambda: D(r.randbytes(47)), "seed of 47 bytes"), (lambda: D(r.randbytes(49)), "seed of 49 bytes"),
                     (lambda: D(seed, r.randbytes(49)), "personalization of 49 bytes"), (lambda: a.random_bytes(5, r.randbytes(49)), "additional input of 49 bytes")):
            v, e = pyref.call(f)
            w.ev("drbg-refused")
            if not isinstance(e, ValueError):
                w.violation("drbg-limits", "%s is not refused" % x, {})
        x = D().random_bytes(32)
        if x in fresh:
            w.violation("drbg-fresh", "two unseeded generators give the same bytes", {})
        fresh.add(x)


def plan(R):
    k = 2 if R.quick else 60
    return [("table", dict(n=2000 * k)), ("expo", dict(n=3000 * k)), ("scripted", dict(n=15000 * k)), ("scripted", dict(n=15000 * k, part=1)),
            ("spread", dict(n=60000 * k)), ("spread", dict(n=60000 * k, part=1)), ("keygauss", dict(n=20000 * k)),
            ("chacha", dict(n=40 * k)), ("drbg", dict(n=200 * k))]


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("P08", "one draw, stream read or distribution compared with the model; distinct by input bytes and parameters",
               {f.__name__: strip(f) for f in (table, expo, scripted, spread, keygauss, chacha, drbg)}, plan,
               {"table-points": 2000, "exponentials": 2500, "bernoulli": 5000, "scripted": 20000, "rejections": 1000, "distributions": 12,
                "mkgauss-words": 2000, "bernoulli-tail": 4000, "small-polys-modelled": 60, "small-poly-rejects": 50, "small-polys": 18, "chacha-reads": 1000, "drbg-reads": 500, "drbg-refused": 800},
               ["distributions are compared by chi-square at p < 1e-12"])
