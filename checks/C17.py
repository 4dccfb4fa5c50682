"""C17: the mod-q ring layer (transform, key derivation, key completion, verification, recovery) for every degree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import build, pool, ref
from vh.cfalcon import Lib
Q = ref.Q
NW = 0xEEEE


def polys(rng, n):
    """A short polynomial, often with structure."""
    k = rng.randrange(8)
    if k == 0:
        return [rng.choice([-1, 0, 1]) for _ in range(n)]
    if k == 1:
        v = [0] * n
        v[rng.randrange(n)] = rng.choice([1, -1, 7])
        return v
    if k == 2:
        return [rng.randrange(-127, 128) for _ in range(n)]
    return [max(-127, min(127, int(rng.gauss(0, 5)))) for _ in range(n)]


def with_zero(rng, n):
    """A polynomial that vanishes at some of the transform's points, coefficients centred."""
    t = [rng.randrange(1, Q) for _ in range(n)]
    z = rng.choice([1, 1, 1, 2, 3, n // 2, n - 1, n])
    for i in rng.sample(range(n), max(1, min(z, n))):
        t[i] = 0
    if rng.random() < .3:
        t = [0 if v else 0 for v in t[:1]] + t[1:]
    return [int(x) for x in ref.centre(ref.intt(t))]


def small_zero(rng, n, i):
    """A polynomial with coefficients of at most 127 that vanishes at the transform's point i, and usually nowhere else."""
    x = int(ref.ntt([0, 1] + [0] * (n - 2))[i])
    while True:
        p = [0, 0] + [max(-127, min(127, int(rng.gauss(0, rng.choice([2, 5, 40]))))) for _ in range(n - 2)]
        v = int(ref.ntt(p)[i])
        bs = list(range(-127, 128))
        rng.shuffle(bs)
        for b in bs:
            a = (-v - b * x + Q // 2) % Q - Q // 2
            if abs(a) <= 127 and (a or b or any(p)):
                return [a, b] + p[2:]


def ring(w, san, logn, cnt, part):
    L = Lib("shake", san)
    Z, rng, n = L.Z, w.rng, 1 << logn
    tmp = lambda k: L.tmp(k)
    for it in range(cnt):
        # forward transform, plain and Montgomery form
        k = rng.randrange(6)
        a = ([0] * n if k == 0 else [Q - 1] * n if k == 1 else [rng.choice([0, 1, Q - 1, Q // 2, Q // 2 + 1]) for _ in range(n)] if k == 2
             else [rng.randrange(Q) for _ in range(n)])
        if k == 3:
            a = [0] * n
            a[rng.randrange(n)] = rng.randrange(Q)
        case = {"logn": logn, "a": a[:64], "it": it, "part": part}
        w.now(case)
        w.case((logn, tuple(a), it if k < 2 else 0))
        e = [int(x) for x in ref.ntt(a)]
        h = L.u16(a)
        Z("to_ntt")(h, logn)
        w.ev("to_ntt")
        if list(h) != e:
            w.violation("to_ntt", "logn %d: transform is not the evaluation at the documented points" % logn, case)
        h = L.u16(a)
        Z("to_ntt_monty")(h, logn)
        if list(h) != [x * 65536 % Q for x in e]:
            w.violation("to_ntt_monty", "logn %d: Montgomery transform differs" % logn, case)
        # public key from (f, g)
        f, g = polys(rng, n), polys(rng, n)
        if rng.random() < .2:
            z = with_zero(rng, n)
            f = [int(x) for x in z] if max(map(abs, z)) <= 127 else f
        if rng.random() < .15:
            f = ([1, -1] * n)[:n] if rng.random() < .3 else [0] * n
        slot = None
        if rng.random() < .25:
            slot = rng.choice([0, n - 1, n // 2, n // 2 - 1, rng.randrange(n), rng.randrange(n)])
            f = small_zero(rng, n, slot)
            w.ev("one_point_zero")
        h = L.u16([NW] * n)
        r = Z("compute_public")(h, L.i8(f), L.i8(g), logn, tmp(2 * n))
        fi = ref.invq(f)
        w.ev("compute_public")
        if r != int(fi is not None):
            w.violation("compute_public", "logn %d: invertibility of f judged %d" % (logn, r), dict(case, f=f, g=g))
        elif r:
            if list(h) != [int(x) for x in ref.mulq(fi, g)]:
                w.violation("compute_public", "logn %d: h is not g/f" % logn, dict(case, f=f, g=g))
        else:
            w.ev("not_invertible")
        # key completion: G = gF/f if that is small
        F, G = polys(rng, n), None
        if fi is not None and rng.random() < .8:
            # make it complete: choose f, F and G, and g := fG/F when small is rare, so take f = +-x^k
            j = rng.randrange(n)
            f = [0] * n
            f[j] = rng.choice([1, -1])
            if rng.random() < .5:
                g = [rng.choice([-1, 0, 1]) if rng.random() < .2 else 0 for _ in range(n)]
        if slot is not None and rng.random() < .5:      # G = g would do, if f could be divided by
            F, g = list(f), small_zero(rng, n, slot)
        o = L.i8([99] * n)
        r = Z("complete_private")(o, L.i8(f), L.i8(g), L.i8(F), logn, tmp(4 * n))
        fi = ref.invq(f)
        e = None
        if fi is not None:
            e = [int(x) for x in ref.centre(ref.mulq(ref.mulq(g, F), fi))]
            if max(abs(x) for x in e) > 127:
                e = None
        w.ev("complete_private")
        if r != int(e is not None) or (r and list(o) != e):
            w.violation("complete_private", "logn %d: completion returns %d, should %d" % (logn, r, int(e is not None)), dict(case, f=f, g=g, F=F))
        elif r:
            w.ev("completed")
        # invertibility and zero count of s2
        s2 = with_zero(rng, n) if rng.random() < .5 else [int(rng.gauss(0, 165)) for _ in range(n)]
        t = ref.ntt(s2)
        z = int((t == 0).sum())
        w.ev("zero_count")
        if z:
            w.ev("zero_count_nonzero")
        if Z("count_nttzero")(L.i16(s2), logn, tmp(2 * n)) != z:
            w.violation("count_nttzero", "logn %d: %d zeros miscounted" % (logn, z), dict(case, s2=s2))
        if Z("is_invertible")(L.i16(s2), logn, tmp(2 * n)) != int(z == 0):
            w.violation("is_invertible", "logn %d: polynomial with %d zeros misjudged" % (logn, z), dict(case, s2=s2))
        if logn <= 9:
            if rng.random() < .2:       # few values of the hint, 1 and -1 among them
                s2 = [0] * n
                s2[rng.randrange(n)] = rng.choice([-1, 1]) * rng.randrange(1, Q // 2 + 1)
                t = ref.ntt(s2)
            p = 1
            for x in t:
                p = p * int(x) % Q
            p = pow(p, -1, Q) if p else 0
            w.ev("hint_%s" % ({0: "zero", 1: "one", Q - 1: "minus_one"}.get(p, "other")))
            if Z("hint_epervier")(L.i16(s2), logn) != p:
                w.violation("hint", "logn %d: hint differs" % logn, dict(case, s2=s2))
        # verification and recovery, near the bound
        c0 = [rng.randrange(Q) for _ in range(n)]
        b = ref.BOUNDS[logn]
        s2 = [int(rng.gauss(0, 150)) for _ in range(n)]
        h = [rng.randrange(Q) for _ in range(n)]
        k = rng.randrange(4)
        if k < 3:
            # forge: s1 small, h from s2
            s1 = [int(rng.gauss(0, 150)) for _ in range(n)]
            tgt = b + rng.choice([-1, 0, 1, -rng.randrange(1, 1000), rng.randrange(1, 1000)])
            aim(rng, s1, s2, tgt)
            if k == 2:
                i = rng.randrange(n)
                s2[i] = rng.choice([-2047, 2047, 6144, -6144, 5833, -5834])
            si = ref.invq(s2)
            if si is None:
                continue
            h = [int(x) for x in ref.mulq((np.asarray(c0) - np.asarray(s1)), si)]
        hm = L.u16(h)
        Z("to_ntt_monty")(hm, logn)
        r = Z("verify_raw")(L.u16(c0), L.i16(s2), hm, logn, tmp(2 * n))
        s1c = ref.centre(np.asarray(c0) - ref.mulq(s2, h))
        e = int(ref.norm2(s1c, s2) <= b)
        w.ev("verify_raw")
        w.ev("verify_accept" if e else "verify_reject")
        if r != e:
            w.violation("verify_raw", "logn %d: squared norm %d (bound %d) judged %d" % (logn, ref.norm2(s1c, s2), b, r), dict(case, s2=s2, c0=c0, h=h))
        if k < 3:
            o = L.u16([NW] * n)
            if rng.random() < .2:
                s2 = with_zero(rng, n)
            r = Z("verify_recover")(o, L.u16(c0), L.i16(s1), L.i16(s2), logn, tmp(2 * n))
            si = ref.invq(s2)
            e = int(si is not None and ref.norm2(s1, s2) <= b)
            w.ev("recover")
            if r != e:
                w.violation("verify_recover", "logn %d: recovery returns %d, not %d" % (logn, r, e), dict(case, s1=s1, s2=s2))
            elif r and list(o) != [int(x) for x in ref.mulq(np.asarray(c0) - np.asarray(s1), si)]:
                w.violation("verify_recover", "logn %d: recovered key differs" % logn, dict(case, s1=s1, s2=s2))
    w.sample({"logn": logn, "count": cnt})


def aim(rng, a, b, target):
    """Scale and patch (a, b) so that the squared norm is target, if it can be done."""
    import math
    n = len(a)
    have = ref.norm2(a, b) or 1
    k = math.sqrt(max(target, 1) / have) * (0.9 if n > 4 else 0.5)
    for v in (a, b):
        for i in range(n):
            v[i] = max(-6144, min(6144, int(v[i] * k)))
    idx = list(range(n))
    rng.shuffle(idx)
    for i in idx:
        rest = target - (ref.norm2(a, b) - a[i] * a[i])
        if rest < 0:
            continue
        m = min(math.isqrt(rest), 6144)
        if m >= abs(a[i]):
            a[i] = m if rng.random() < .5 else -m
        if ref.norm2(a, b) == target:
            break


def plan(R):
    build.prepare("shake", "shake/asan")
    q = R.quick
    t = []
    for logn in range(10, 0, -1):
        n = {10: 60, 9: 120, 8: 200, 7: 300}.get(logn, 500)
        for p in range(2):
            t.append(("ring", dict(san="", logn=logn, cnt=n if q else n * 40, part=p)))
        t.append(("ring", dict(san="asan", logn=logn, cnt=n // 4 if q else n * 4, part=9), "asan"))
    return t


if __name__ == "__main__":
    pool.check("C17", "a (degree, operands) tuple through the ring layer", {"ring": ring}, plan,
               {"to_ntt": 2000, "compute_public": 2000, "complete_private": 2000, "completed": 200, "not_invertible": 50,
                "zero_count_nonzero": 500, "verify_accept": 300, "verify_reject": 300, "recover": 1000,
                "one_point_zero": 500, "hint_minus_one": 5, "hint_one": 5})
