"""C15: the integer sampler draws from the discrete Gaussian it was asked for, and from nothing else."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import math
import numpy as np
from scipy import stats
from vh import build, pool, ref
from vh.cfalcon import Lib, d2u, u2d, cbuf
import ctypes as C

RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903,
        8595902006365044063, 1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299,
        638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
SIGMA0 = 1.8205
LN2 = math.log(2)


class Ctx:
    """A sampler context in the library and its model, started from the same seed."""

    def __init__(self, L, seed, sigma_min):
        self.L = L
        self.c = cbuf(L.c.w_sizeof_sampler(), 0)
        L.c.w_sampler_init(self.c, L.shake(seed), d2u(sigma_min))
        self.p = L.c.w_sampler_prng(self.c)
        self.m = ref.FalconPrng(ref.shake256(seed, 56))
        self.sigma_min = sigma_min

    def script(self, data):
        """Both sides next read these bytes."""
        b = bytes(data)[:504] + b"\x5a" * (512 - min(len(data), 504))
        C.memmove(self.p, b, 512)
        C.memmove(self.p + 512, (0).to_bytes(8, "little"), 8)
        self.m.buf, self.m.ptr = b, 0

    def ptr(self):
        return int.from_bytes(C.string_at(self.p + 512, 8), "little")


def half_gauss(v):
    return sum(v < t for t in RCDT)


def table(w, san, n):
    """gaussian0: exactly at, below and around each threshold of the 72-bit table, and on random input."""
    L = Lib("shake", san)
    cx = Ctx(L, b"t", 1.2)
    rng = w.rng

    def ask(v):
        cx.script(v.to_bytes(9, "little"))
        w.now({"v": v})
        g, e = L.Z("gaussian0_sampler")(cx.p), half_gauss(v)
        w.ev("table_points")
        w.case(("t", v))
        if g != e or cx.ptr() != 9:
            w.violation("gaussian0", "72-bit draw %d gives %d, not %d (read %d bytes)" % (v, g, e, cx.ptr()), {"v": v})
    for t in RCDT:
        for d in (-2, -1, 0, 1, 2, -2 ** 24, 2 ** 24, -2 ** 48, 2 ** 48, -2 ** 23, 2 ** 23, 2 ** 47, -2 ** 47):
            if 0 <= t + d < 2 ** 72:
                ask(t + d)
    for v in (0, 1, 2 ** 72 - 1, 2 ** 71, 2 ** 64, 2 ** 64 - 1, 2 ** 24 - 1, 2 ** 24, 2 ** 48, 2 ** 48 - 1):
        ask(v)
    for _ in range(n):
        ask(rng.getrandbits(rng.randrange(1, 73)))


def expect(m, mu, sigma, sigma_min):
    """What the specified sampler returns on the model's bytes; None where exp() is too close to call."""
    s = math.floor(mu)
    r = mu - s
    dss = 1 / (2 * sigma * sigma)
    ccs = sigma_min / sigma
    rounds = 0
    while True:
        rounds += 1
        lo = m.u64()
        z0 = half_gauss(lo | (m.u8() << 64))
        b = m.u8() & 1
        z = b + (2 * b - 1) * z0
        x = (z - r) ** 2 * dss - z0 * z0 / (2 * SIGMA0 ** 2)
        p = ccs * math.exp(-x) * 2.0 ** 64
        lo_, hi_ = max(0, int(p * (1 - 2.0 ** -38)) - 4), min(2 ** 64 - 1, int(p * (1 + 2.0 ** -38)) + 4)
        if x >= 63 * LN2:
            lo_, hi_ = 0, 4
        acc = None
        for i in range(56, -8, -8):
            u = m.u8()
            a, c = (lo_ >> i) & 255, (hi_ >> i) & 255
            if lo_ >> i != hi_ >> i:
                if u < a or u > c:
                    acc = u < a
                    break
                return None
            if u != a:
                acc = u < a
                break
        if acc is None:
            return None
        if acc:
            return s + z, rounds


def some_mu(rng):
    k = rng.randrange(8)
    if k == 7:
        return rng.uniform(-1, 1) * 2.0 ** rng.randrange(10, 26)
    if k == 0:
        return float(rng.randrange(-50, 50))
    if k == 1:
        return rng.randrange(-50, 50) + rng.choice([.5, 2.0 ** -40, 1 - 2.0 ** -40, -2.0 ** -30])
    if k == 2:
        return rng.uniform(-12289, 12289)
    if k == 3:
        return -rng.random()
    return rng.gauss(0, 200)


def exact(w, san, n, part):
    L = Lib("shake", san)
    rng = w.rng
    smins = [u2d(L.c.w_sigma_min(k)) for k in range(1, 11)]
    doc = [1.1165085072329104, 1.1321247692325274, 1.1475285353733669, 1.1627255220251353, 1.1777195869474155, 1.1925466358390344,
           1.208205163137566, 1.2236265262345246, 1.2778336969128337, 1.298280334344292]
    if abs(smins[8] - doc[8]) > 1e-9 or abs(smins[9] - doc[9]) > 1e-9:
        w.violation("sigma_min", "sigma_min for 512/1024 is %r/%r" % (smins[8], smins[9]), {})
    for i in range(n):
        sm = rng.choice(smins[8:] + [smins[rng.randrange(10)]])
        seed = rng.randbytes(8)
        cx = Ctx(L, seed, sm)
        for j in range(40):
            sigma = rng.uniform(sm, SIGMA0) if rng.random() < .9 else rng.choice([sm * (1 + 2.0 ** -30), SIGMA0 * (1 - 2.0 ** -20)])
            mu = some_mu(rng)
            scripted = rng.random() < .35
            if scripted:
                v = rng.choice(RCDT) + rng.choice([-1, 0, 1]) if rng.random() < .6 else rng.getrandbits(72)
                head = max(0, v).to_bytes(9, "little") + bytes([rng.getrandbits(8)])
                tail = rng.choice([b"\0" * 20, b"\xff" * 9, rng.randbytes(6), bytes([rng.choice([0, 1, 2, 0x7f, 0x80])]) + rng.randbytes(8)])
                # the byte just at the acceptance probability of the first round
                cx.script(head + tail + rng.randbytes(480))
            case = {"mu": mu, "sigma": sigma, "sigma_min": sm, "seed": seed, "j": j, "buf": C.string_at(cx.p, 40) if scripted else ""}
            w.now(case)
            e = expect(cx.m, mu, sigma, sm)
            isig = 1 / sigma
            g = L.Z("sampler")(cx.c, d2u(mu), d2u(isig))
            w.ev("draws")
            if scripted:
                w.ev("scripted_draws")
            w.case((seed, j))
            if e is None:
                w.ev("too_close_to_call")
                break
            if e[1] > 1:
                w.ev("draws_with_rejections")
            if g != e[0] or cx.ptr() != cx.m.ptr:
                w.violation("sampler", "mu=%r sigma=%r: sampler returns %d, the specification %d (after %d rounds; read positions %d/%d)" % (
                    mu, sigma, g, e[0], e[1], cx.ptr(), cx.m.ptr), case)
                break
        if i < 2:
            w.sample(case)


def dist(w, n, k, part):
    """Chi-square against the ideal distribution."""
    L = Lib("shake")
    rng = w.rng
    f = L.Z("sampler")
    for i in range(k):
        sm = u2d(L.c.w_sigma_min(rng.choice([9, 10])))
        sigma = rng.choice([sm * (1 + 2.0 ** -30), SIGMA0 * (1 - 2.0 ** -20), rng.uniform(sm, SIGMA0)])
        mu = rng.choice([0.0, 0.5, rng.random(), -rng.random(), some_mu(rng)])
        cx = Ctx(L, rng.randbytes(8), sm)
        w.now({"mu": mu, "sigma": sigma})
        c = math.floor(mu)
        um, ui = d2u(mu), d2u(1 / sigma)
        cnt = np.zeros(81, dtype=np.int64)
        out = 0
        for _ in range(n):
            z = f(cx.c, um, ui) - c + 40
            if 0 <= z < 81:
                cnt[z] += 1
            else:
                out += 1
        zs = np.arange(81) - 40 + c
        p = np.exp(-(zs - mu) ** 2 / (2 * sigma ** 2))
        p /= p.sum()
        big = p * n >= 20
        o = np.append(cnt[big], n - cnt[big].sum())
        e = np.append(p[big], 1 - p[big].sum()) * n
        chi = float(((o - e) ** 2 / e)[:-1].sum() + (o[-1] - e[-1]) ** 2 / max(e[-1], 1e-9))
        pv = stats.chi2.sf(chi, len(o) - 1)
        mean = float((cnt * zs).sum() / n)
        w.ev("distributions")
        w.ev("distribution_draws", n)
        w.case(("d", mu, sigma))
        tail = abs(mean - mu) / (sigma / math.sqrt(n))
        if (pv < 1e-12 and e[-1] > .5) or stats.chi2.sf(float(((o - e) ** 2 / e)[:-1].sum()), len(o) - 2) < 1e-12 or tail > 7.5 or out:
            w.violation("distribution", "mu=%r sigma=%r: chi2 p=%.3g, mean %.5f, out of range %d in %d draws" % (mu, sigma, pv, mean, out, n),
                        {"mu": mu, "sigma": sigma, "counts": cnt[20:60].tolist()})
        if i == 0:
            w.sample({"mu": mu, "sigma": sigma, "chi2_p": float(pv), "mean": mean})


def plan(R):
    build.prepare("shake", "shake/asan", "shake/O3")
    q = R.quick
    t = [("table", dict(san="", n=20000 if q else 600000)), ("table", dict(san="asan", n=2000 if q else 40000), "asan")]
    for p in range(5):
        t.append(("exact", dict(san="", n=120 if q else 6000, part=p)))
    t.append(("exact", dict(san="asan", n=40 if q else 1500, part=9), "asan"))
    for p in range(6):
        t.append(("dist", dict(n=60000 if q else 1500000, k=6 if q else 12, part=p)))
    return t


if __name__ == "__main__":
    pool.check("C15", "a table point, a draw with its random bytes known, or a (centre, deviation) pair sampled many times",
               {"table": table, "exact": exact, "dist": dist}, plan,
               {"table_points": 15000, "draws": 10000, "scripted_draws": 2000, "draws_with_rejections": 3000, "distributions": 20})
