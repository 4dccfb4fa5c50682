"""C16: signatures follow one spherical Gaussian, whatever the key: their distribution does not show the secret basis."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ctypes as C
import math
import numpy as np
from vh import build, pool, pygauss, ref
from vh.cfalcon import Lib, u2d
from vh.ref import Q

SIGMA = {9: 165.7366171829776, 10: 168.38857144654395}
TEMP = {1: 136, 2: 272, 3: 224, 4: 448, 5: 896, 6: 1792, 7: 3584, 8: 7168, 9: 14336, 10: 28672}


def key(L, rng, logn):
    n = 1 << logn
    while True:
        f, g, F, G = (L.i8([0] * n) for _ in range(4))
        h = L.u16([0] * n)
        L.Z("keygen")(L.shake(rng.randbytes(32)), f, g, F, G, h, logn, L.tmp(TEMP[logn]))
        return list(f), list(g), list(F), list(G), list(h)


def rot(p):
    """Matrix of the rotations x^i p, as rows."""
    n = len(p)
    p = np.asarray(p, dtype=np.float64)
    M = np.empty((n, n))
    for i in range(n):
        M[i, i:] = p[:n - i]
        M[i, :i] = -p[n - i:]
    return M


def signer(L, logn, K, tree, alias=False):
    f, g, F, G, h = K
    n = 1 << logn
    ff, gg, FF, GG = L.i8(f), L.i8(g), L.i8(F), L.i8(G)
    tmp = L.tmp(80 * n)
    sig = L.i16([0] * n)
    if tree:
        ek = L.tmp((8 * logn + 40) * n)
        L.Z("expand_privkey")(ek, ff, gg, FF, GG, logn, L.tmp(64 * n))

    def sign(hm, seed):
        ctx = L.shake(seed)
        if alias:       # the interface allows the target and the signature to share one buffer
            C.memmove(sig, hm, 2 * n)
            hm = C.cast(sig, C.POINTER(C.c_uint16))
        if tree:
            L.Z("sign_tree")(sig, ctx, ek, hm, logn, tmp)
        else:
            L.Z("sign_dyn")(sig, ctx, ff, gg, FF, GG, hm, logn, tmp)
        return np.array(sig, dtype=np.int64), np.frombuffer(bytes(tmp)[:2 * n], dtype=np.int16).astype(np.int64)
    return sign


def valid(w, san, logn, cnt, part):
    """Both signers, at every degree: a valid short preimage of the target, s1 included; distinct per seed."""
    L = Lib("shake", san)
    rng, n = w.rng, 1 << logn
    for i in range(cnt):
        K = key(L, rng, logn)
        hv = K[4]
        for tree in (False, True):
            s = signer(L, logn, K, tree)
            seen = {}
            for j in range(4 if j_small(logn) else 8):
                k = rng.randrange(5)
                hm = [0] * n if k == 0 else [Q - 1] * n if k == 1 else [rng.randrange(Q) for _ in range(n)]
                seed = rng.randbytes(16)
                w.now({"logn": logn, "tree": tree, "key": K[0][:8], "seed": seed})
                s2, s1 = s(L.u16(hm), seed)
                w.ev("signed_tree" if tree else "signed_dyn")
                w.case((logn, tree, seed))
                e1 = ref.centre(np.asarray(hm) - ref.mulq(s2, hv))
                case = {"logn": logn, "tree": tree, "f": K[0], "g": K[1], "hm": hm, "seed": seed, "s2": s2}
                if ref.norm2(e1, s2) > ref.BOUNDS[logn]:
                    w.violation("invalid", "logn %d %s: signature has squared norm %d, bound %d" % (logn, "tree" if tree else "dyn", ref.norm2(e1, s2), ref.BOUNDS[logn]), case)
                if not tree and not np.array_equal(s1, e1):
                    w.violation("s1", "logn %d: the s1 left by the signer is not the one of the signature" % logn, case)
                t, _ = s(L.u16(hm), rng.randbytes(16))
                if logn >= 5 and np.array_equal(t, s2):
                    w.violation("same", "logn %d: two seeds give one signature" % logn, case)
                t, _ = s(L.u16(hm), seed)
                if not np.array_equal(t, s2):
                    w.violation("seeded", "logn %d: one seed gives two signatures" % logn, case)


class Reads:
    """The byte reads of the C signer: nine bytes are a 64-bit word and a byte."""

    def __init__(self, m):
        self.m = m

    def __call__(self, k):
        return self.m.u64().to_bytes(8, "little") + bytes([self.m.u8()]) if k == 9 else bytes([self.m.u8()])


def model(K, B, hm, seed, logn):
    """The signature the specification gives for this seed: (s1, s2, rejected candidates)."""
    st, k = hashlib.shake_256(seed), 0
    d = st.digest(56 * 64)
    while True:
        if 56 * (k + 1) > len(d):
            d = st.digest(2 * len(d))
        m = ref.FalconPrng(d[56 * k:56 * k + 56])
        s1, s2 = pygauss.preimage(K[:4], B, hm, Reads(m))
        if ref.norm2(s1, s2) <= ref.BOUNDS[logn]:
            return s1, s2, k
        k += 1


def exact(w, san, logn, keys, cnt, part):
    """Both signers, apart and sharing one buffer for target and signature, against an independent nearest-plane sampler
    (QR instead of the Falcon tree) over the same random bytes."""
    L = Lib("shake", san)
    rng, n = w.rng, 1 << logn
    for i in range(keys):
        K = key(L, rng, logn)
        B = pygauss.basis(K[:4])
        ways = [(tree, alias, signer(L, logn, K, tree, alias)) for tree in (False, True) for alias in (False, True)]
        for j in range(cnt):
            k = rng.randrange(6)
            hm = [0] * n if k == 0 else [Q - 1] * n if k == 1 else [rng.randrange(Q) for _ in range(n)]
            seed = rng.randbytes(rng.choice([0, 1, 16, 48]))
            case = {"logn": logn, "f": K[0], "g": K[1], "hm": hm, "seed": seed}
            w.now(case)
            try:
                e1, e2, rej = model(K, B, hm, seed, logn)
            except pygauss.Close:
                w.ev("too_close_to_call")
                e1 = None
            first = None
            for tree, alias, s in ways:
                s2, s1 = s(L.u16(hm), seed)
                w.ev("modelled_tree" if tree else "modelled_dyn")
                w.case((logn, tree, alias, seed, j))
                if alias:
                    w.ev("shared_buffer")
                c = dict(case, tree=tree, shared=alias, s2=s2)
                name = ("sign_tree" if tree else "sign_dyn") + (" (shared buffer)" if alias else "")
                if e1 is not None:
                    if rej:
                        w.ev("modelled_with_rejections")
                    if s2.tolist() != e2 or (not tree and s1.tolist() != e1):
                        w.violation("model", "logn %d: %s gives a signature other than the specified one (%d candidates rejected)" % (logn, name, rej), c)
                        return
                elif ref.norm2(ref.centre(np.asarray(hm) - ref.mulq(s2, K[4])), s2) > ref.BOUNDS[logn]:
                    w.violation("invalid", "logn %d: %s gives an invalid signature" % (logn, name), c)
                    return


def j_small(logn):
    return logn >= 8


def spherical(w, logn, cnt, tree, part):
    L = Lib("shake", "O3")
    rng, n = w.rng, 1 << logn
    sg = u2d(L.c.w_inv_sigma(logn)) ** -1
    sigma = SIGMA.get(logn)
    if abs(sg - sigma) > 1e-6:
        w.violation("sigma", "logn %d: deviation %r, not %r" % (logn, sg, sigma), {})
    K = key(L, rng, logn)
    f, g, F, G, h = K
    s = signer(L, logn, K, tree)
    S = np.empty((cnt, 2 * n))
    nh = np.random.default_rng(rng.getrandbits(60))
    for i in range(cnt):
        hm = nh.integers(0, Q, n).astype(np.uint16)
        seed = rng.randbytes(16)
        w.now({"logn": logn, "i": i, "tree": tree})
        s2, s1 = s(L.u16(hm.tolist()), seed)
        if tree:
            s1 = ref.centre(hm.astype(np.int64) - ref.mulq(s2, h))
        S[i, :n], S[i, n:] = s1, s2
        w.case((logn, tree, seed))
        w.ev("signatures")
    case = {"logn": logn, "tree": tree, "f": f, "g": g, "signatures": cnt}
    # the secret basis spans what s1 + s2 h = 0 spans: rows (g, -f), (G, -F) up to sign; pick the sign that fits
    B = np.block([[rot(g), -rot(f)], [rot(G), -rot(F)]])
    br = [ref.brv(i, logn) for i in range(n)]
    order = br + [n + i for i in br]
    Qm, _ = np.linalg.qr(B[order].T)       # columns: normalized Gram-Schmidt vectors, in the sampler's order
    # normal quantiles at a false alarm rate well below 1e-9 per statistic
    def var_test(name, X, zlim=7.5):
        """Variance of X (samples x directions) is sigma^2 along each direction and overall, mean 0."""
        v = (X ** 2).mean(0) / sigma ** 2
        d = len(v)
        k = X.shape[0]
        # chi-square with k degrees of freedom, Wilson-Hilferty
        z = (np.cbrt(v) - (1 - 2 / (9 * k))) / math.sqrt(2 / (9 * k))
        w.ev("directions", d)
        i = int(np.argmax(np.abs(z)))
        if abs(z[i]) > zlim:
            w.violation(name, "logn %d: variance along direction %d is %.4f of sigma^2 over %d signatures (z=%.1f)" % (logn, i, v[i], k, z[i]), case)
        tot = float(v.mean())
        zt = (tot - 1) / math.sqrt(2 / (k * d))
        w.ev("pooled_tests")
        if abs(zt) > zlim:
            w.violation(name + "-pooled", "logn %d: variance over %d directions is %.5f of sigma^2 (z=%.1f)" % (logn, d, tot, zt), case)
        disp = float((z ** 2).mean())
        if abs(disp - 1) > zlim * math.sqrt(2 / d) * 1.3:
            w.violation(name + "-dispersion", "logn %d: variances over %d directions spread %.3f times what they should" % (logn, d, disp), case)
        m = X.mean(0) / (sigma / math.sqrt(k))
        if np.max(np.abs(m)) > zlim:
            w.violation(name + "-mean", "logn %d: mean along direction %d is %.2f standard errors from 0" % (logn, int(np.argmax(np.abs(m))), float(np.max(np.abs(m)))), case)
        return tot
    r = {"coefficients": var_test("coefficients", S)}
    r["gram-schmidt"] = var_test("gram-schmidt", S @ Qm)
    for half, sl in (("first", slice(0, n)), ("second", slice(n, 2 * n))):
        r["gs-" + half] = var_test("gram-schmidt-" + half, (S @ Qm)[:, sl])
    for name, M in (("rows-b0", B[:n]), ("rows-b1", B[n:])):
        nr = M / np.linalg.norm(M, axis=1)[:, None]
        v = ((S @ nr.T) ** 2).mean(0) / sigma ** 2
        z = (np.cbrt(v) - (1 - 2 / (9 * cnt))) / math.sqrt(2 / (9 * cnt))
        w.ev("directions", n)
        if np.max(np.abs(z)) > 7.5:
            w.violation(name, "logn %d: variance along the secret row %d is %.4f of sigma^2" % (logn, int(np.argmax(np.abs(z))), float(v[int(np.argmax(np.abs(z)))])), case)
    # third and fourth moments of single coefficients (a Gaussian, rounded)
    x = S.ravel() / sigma
    k3, k4 = float((x ** 3).mean()), float((x ** 4).mean())
    N_ = len(x)
    if abs(k3) > 7.5 * math.sqrt(15 / N_) or abs(k4 - 3) > 7.5 * math.sqrt(96 / N_) + 0.01:
        w.violation("shape", "logn %d: coefficient moments %.4f %.4f" % (logn, k3, k4), case)
    # parity of the coefficients is balanced
    par = float((S.astype(np.int64) & 1).mean())
    if abs(par - .5) > 7.5 * .5 / math.sqrt(N_):
        w.violation("parity", "logn %d: fraction of odd coefficients %.5f" % (logn, par), case)
    r["norm2/expected"] = float((S ** 2).sum(1).mean() / (2 * n * sigma ** 2))
    w.sample({"logn": logn, "tree": tree, "signatures": cnt, "variance_ratios": r})


def plan(R):
    build.prepare("shake", "shake/asan", "shake/O3")
    q = R.quick
    t = []
    for p in range(6):
        t.append(("spherical", dict(logn=9, cnt=3000 if q else 30000, tree=bool(p % 3 == 2), part=p)))
    t.append(("spherical", dict(logn=10, cnt=700 if q else 12000, tree=False, part=9)))
    for logn in range(10, 0, -1):
        n = 2 if logn >= 8 else 6
        t.append(("valid", dict(san="", logn=logn, cnt=n if q else n * 25, part=0)))
        t.append(("valid", dict(san="asan", logn=logn, cnt=1 if q else 8, part=1), "asan"))
        k, c = (20, 20) if logn <= 6 else (6, 10) if logn <= 8 else (3, 12)
        t.append(("exact", dict(san="", logn=logn, keys=k if q else 20 * k, cnt=c, part=2)))
        t.append(("exact", dict(san="asan", logn=logn, keys=1 if q else 6, cnt=3, part=3), "asan"))
    return t


if __name__ == "__main__":
    pool.check("C16", "a signature (degree, signer, seed); statistics are over all signatures of a key", {"valid": valid, "spherical": spherical, "exact": exact}, plan,
               {"signatures": 5000, "directions": 10000, "signed_dyn": 200, "signed_tree": 200,
                "modelled_dyn": 1000, "modelled_tree": 1000, "shared_buffer": 1000, "modelled_with_rejections": 300},
               ["statistical: a deviation smaller than about 5 % of one direction's variance, or 0.5 % pooled, is not seen in a quick run"])
