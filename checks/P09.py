"""P09: Python key generation returns valid, well-shaped keys and its big-integer steps are exact."""
import math, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, pykeys, pyref, pyspec, pygauss, ref
from vh.ref import Q

BOUND = 1.17 ** 2 * Q


def zmul(a, b):
    """Exact product modulo x^n+1 by Kronecker substitution."""
    n = len(a)
    w = (max(map(abs, a)).bit_length() + max(map(abs, b)).bit_length() + n.bit_length() + 3)
    A, B = (sum(v << (w * i) for i, v in enumerate(p)) for p in (a, b)) if n <= 64 else (pk(a, w), pk(b, w))
    c = A * B
    out, M, H = [], (1 << w) - 1, 1 << (w - 1)
    neg = c < 0
    c = abs(c)
    bs = c.to_bytes((2 * n * w + 15) // 8 + 8, "little")
    carry = 0
    for i in range(2 * n):
        p = i * w
        v = (int.from_bytes(bs[p // 8:(p + w) // 8 + 1], "little") >> (p % 8)) & M
        v += carry
        carry = 0
        if v >= H:
            v -= 1 << w
            carry = 1
        out.append(-v if neg else v)
    return [out[i] - out[i + n] for i in range(n)]


def pk(a, w):
    """sum a[i] 2^(w i), by halves"""
    if len(a) <= 32:
        return sum(v << (w * i) for i, v in enumerate(a))
    h = len(a) // 2
    return pk(a[:h], w) + (pk(a[h:], w) << (w * h))


def norm_down(a):
    """N(a)(x^2) = a(x) a(-x)"""
    c = zmul(a, [v if i % 2 == 0 else -v for i, v in enumerate(a)])
    if any(c[1::2]):
        raise AssertionError("field norm")
    return c[::2]


def resultant(a):
    while len(a) > 1:
        a = norm_down(a)
    return a[0]


def vander(n, memo={}):
    if n not in memo:
        memo[n] = np.exp(1j * np.pi * (2 * np.arange(n) + 1) / n)[:, None] ** np.arange(n)[None, :]
    return memo[n]


def gs(f, g):
    V = vander(len(f))
    F, G = V @ np.array(f, dtype=float), V @ np.array(g, dtype=float)
    return float(np.dot(f, f) + np.dot(g, g)), Q * Q * float(np.mean(1 / (abs(F) ** 2 + abs(G) ** 2)))


def solved(w, key, what, case):
    """The equation, exactly, and the reducedness of (F, G)."""
    f, g, F, G = key
    n = len(f)
    if not all(type(v) is int for p in key for v in p):
        w.violation("types", "%s: coefficients are not integers" % what, case)
        return False
    d = [x - y for x, y in zip(zmul(f, G), zmul(g, F))]
    if d != [Q] + [0] * (n - 1):
        w.violation("equation", "%s: f G - g F is not q" % what, case)
        return False
    return reduced(w, key, what, case)


def reduced(w, key, what, case):
    f, g, F, G = key
    n = len(f)
    big = max(map(abs, F + G))
    if big > 1 << 40:
        w.violation("size", "%s: F or G has a coefficient of %d bits" % (what, big.bit_length()), case)
        return False
    V = vander(n)
    e = [V @ np.array(p, dtype=float) for p in key]
    k = np.real(V.conj().T @ ((e[2] * e[0].conj() + e[3] * e[1].conj()) / (abs(e[0]) ** 2 + abs(e[1]) ** 2))) / n
    if np.max(np.abs(k)) > .501:
        w.violation("reduced", "%s: (F, G) is not reduced by (f, g): a multiple of %.3f is left" % (what, float(np.max(np.abs(k)))), case)
        return False
    return True


def big(r, n, bits):
    return [r.getrandbits(r.choice([1, bits])) * r.choice([1, -1]) if bits else r.choice([0, 1, -1]) for _ in range(n)]


def algebra(w, count):
    import ntrugen as N
    r = w.rng
    for i in range(count):
        n = r.choice([1, 2, 4, 8, 16, 32, 64, 128])
        a, b = big(r, n, r.choice([0, 3, 30, 62, 64, 300, 2000])), big(r, n, r.choice([0, 3, 52, 64, 500]))
        case = {"a": [str(v) for v in a], "b": [str(v) for v in b]}
        w.now({"n": n})
        w.case(repr((a, b)))
        w.ev("algebra")
        if N.karamul(list(a), list(b)) != zmul(a, b):
            w.violation("karamul", "karamul is not the product modulo x^%d+1" % n, case)
        if n > 1:
            if N.field_norm(list(a)) != norm_down(a):
                w.violation("field_norm", "field_norm(a) is not a(x)a(-x)", case)
        if N.galois_conjugate(list(a)) != [v if j % 2 == 0 else -v for j, v in enumerate(a)]:
            w.violation("galois", "galois_conjugate(a) is not a(-x)", case)
        if N.lift(list(a)) != [a[j // 2] if j % 2 == 0 else 0 for j in range(2 * n)]:
            w.violation("lift", "lift(a) is not a(x^2)", case)
        x, y = r.choice([r.getrandbits(r.randrange(1, 2000)), 1, 2, 12]), r.choice([r.getrandbits(r.randrange(1, 2000)), 1, 0, 18])
        if r.random() < .3:
            k = r.getrandbits(50) | 1
            x, y = x * k, y * k
        d, u, v = N.xgcd(x, y)
        if d != math.gcd(x, y) or u * x + v * y != d:
            w.violation("xgcd", "xgcd(%d, %d) = %d, %d, %d" % (x, y, d, u, v), {"x": str(x), "y": str(y)})
        v = r.getrandbits(r.randrange(0, 300)) * r.choice([1, -1])
        s = N.bitsize(v)
        if s % 8 or not abs(v).bit_length() <= s < abs(v).bit_length() + 8:
            w.violation("bitsize", "bitsize(%d) = %d" % (v, s), {"v": str(v)})


def reduction(w, count):
    import ntrugen as N
    r = w.rng
    for i in range(count):
        n = r.choice([2, 4, 8, 16, 32, 64, 128, 256])
        key = pykeys.polys(n, r)
        f, g, F, G = key
        bits = r.choice([1, 10, 50, 60, 200, 1000])
        k = [r.getrandbits(bits) * r.choice([1, -1, 0]) for _ in range(n)]
        if r.random() < .3:  # large (f, g) as inside the recursion
            sh = zmul(f, big(r, n, r.choice([20, 60, 200])))
            f, g, F, G = zmul(f, sh), zmul(g, sh), zmul(F, sh), zmul(G, sh)
        A = [x + y for x, y in zip(F, zmul(f, k))]
        B = [x + y for x, y in zip(G, zmul(g, k))]
        det = [x - y for x, y in zip(zmul(f, B), zmul(g, A))]
        case = {"n": n, "f": [str(v) for v in f], "g": [str(v) for v in g], "F": [str(v) for v in A], "G": [str(v) for v in B]}
        w.now({"n": n, "bits": bits})
        w.case(repr((f, A)))
        f0, g0 = list(f), list(g)
        C, D = N.reduce(f0, g0, list(A), list(B))
        w.ev("reductions")
        if (f0, g0) != (f, g):
            w.violation("reduce-input", "reduce changes f or g", case)
        if [x - y for x, y in zip(zmul(f, D), zmul(g, C))] != det:
            w.violation("reduce", "reduce changes f G - g F", case)
            continue
        m = max(map(abs, f + g))
        if m < 1 << 30:
            reduced(w, [f, g, C, D], "reduce", case)


def solve(w, count):
    import ntrugen as N
    r = w.rng
    for i in range(count):
        n = r.choice([2, 4, 8, 16, 32, 64, 128])
        sd = 1.17 * math.sqrt(Q / (2 * n))
        f, g = ([int(round(r.gauss(0, sd))) for _ in range(n)] for _ in range(2))
        k = r.randrange(5)
        if k == 0:  # share a factor
            c = [r.choice([0, 1, -1, 2]) for _ in range(n)]
            f, g = zmul(f, c), zmul(g, c)
        elif k == 1:
            f[0] += (sum(f) + 1) % 2
            g[0] += (sum(g) + 1) % 2
        if not any(f) or not any(g):
            continue
        case = {"f": f, "g": g}
        w.now(case)
        w.case(repr((f, g)))
        want = math.gcd(resultant(f), resultant(g)) == 1
        v, e = pyref.call(N.ntru_solve, list(f), list(g))
        w.ev("solvable" if want else "unsolvable")
        if want:
            if e is not None:
                w.violation("solve", "ntru_solve refuses (f, g) of coprime norms: %r" % e, case)
            else:
                solved(w, [f, g, list(v[0]), list(v[1])], "ntru_solve", case)
        elif not isinstance(e, ValueError):
            w.violation("solve", "ntru_solve answers for norms with a common factor: %r %r" % (v is not None, e), case)


def norms(w, count):
    import ntrugen as N
    r = w.rng
    for i in range(count):
        n = r.choice(pyspec.DEGREES)
        f, g, F, G = pykeys.polys(n, r)
        if n <= 128:
            B = pygauss.basis([f, g, F, G])
            a = [float(B.nn[0]), float(B.nn[n])]
            if max(abs(x - y) / y for x, y in zip(a, gs(f, g))) > 1e-8:
                raise AssertionError("oracles disagree")
        sd = r.choice([1, 3, 30])
        if r.random() < .5:
            f, g = ([int(round(r.gauss(0, sd))) for _ in range(n)] for _ in range(2))
            if max(gs(f, g)) > 1e12:
                continue
        v, want = N.gs_norm(list(f), list(g), Q), max(gs(f, g))
        w.ev("norms")
        w.case(repr((f, g)))
        if abs(v - want) > 1e-8 * want:
            w.violation("gs_norm", "gs_norm is %r, should be %r" % (v, want), {"f": f, "g": g})


def good(w, key, what, case):
    f, g = key[0], key[1]
    n = len(f)
    if not all(len(p) == n for p in key):
        w.violation("shape", "%s: lengths %s" % (what, [len(p) for p in key]), case)
        return
    if not solved(w, key, what, case):
        return
    if max(gs(f, g)) > BOUND * (1 + 1e-9):
        w.violation("quality", "%s: Gram-Schmidt norm %g over the bound %g" % (what, max(gs(f, g)), BOUND), case)
    if any(v == 0 for v in ref.ntt(f)):
        w.violation("invertible", "%s: f is not invertible modulo q" % what, case)


def generate(w, n, count):
    """Keys from given randomness, and again."""
    import ntrugen as N
    from polyntt.ntt_recursive import NTTRecursive
    from falcon import SecretKey
    r = w.rng
    seen = set()
    for i in range(count):
        seed = r.getrandbits(60)
        lg = n.bit_length() - 1 if i % 2 else None
        case = {"n": n, "seed": seed, "logn": lg}
        w.now(case)
        kw = {"logn": lg} if lg else {}
        if i % 3 == 2:
            kw["ntt"] = NTTRecursive
        key = [list(p) for p in N.ntru_gen(n, randombytes=random.Random(seed).randbytes, **kw)]
        w.ev("generated-%s" % ("mkgauss" if lg else "samplerz"))
        w.case((n, seed))
        # gen_poly's coefficients come as residues from the ring's type; the key's meaning is their centred value
        good(w, [[int(v) for v in p] for p in key], "ntru_gen(%d)" % n, case)
        if n < 512 or i == 0:
            again = [list(p) for p in N.ntru_gen(n, randombytes=random.Random(seed).randbytes, **kw)]
            w.ev("regenerated")
            if again != key:
                w.violation("reproducible", "ntru_gen(%d) gives two keys for the same random bytes" % n, case)
        if n >= 64 and repr(key) in seen:
            w.violation("repeat", "two seeds give the same key", case)
        seen.add(repr(key))
        if n < 512 or i == 0:
            K = SecretKey(n, randombytes=random.Random(seed).randbytes)
            h = [int(v) for v in K.h]
            good(w, [list(map(int, p)) for p in (K.f, K.g, K.F, K.G)], "SecretKey(%d)" % n, case)
            if [int(v) for v in ref.mulq(h, list(map(int, K.f)))] != [int(v) % Q for v in K.g]:
                w.violation("public", "SecretKey(%d): h f is not g" % n, case)
            w.ev("secret-keys")
    w.sample({"n": n, "f": [int(v) for v in key[0][:6]], "max F": max(abs(int(v)) for v in key[2])})


def words(p, per):
    """Bytes that make mkgauss return the coefficients of p."""
    from mkgauss import gauss_1024_12289 as G
    o = b""
    for c in p:
        for j in range(per):
            v = c if j == 0 else 0
            a = (G[0] if v else 0) | (1 << 63 if v < 0 else 0)
            o += a.to_bytes(8, "little") + (G[abs(v)] if v else 0).to_bytes(8, "little")
    return o


def offered(w, n, count):
    """Candidates that must be passed over are offered first, then a good one: that one must come back."""
    import ntrugen as N
    r = w.rng
    lg = n.bit_length() - 1
    per = 1 << (10 - lg)
    p = 13 * 1024 + 1

    import signal

    def odd(x):
        return sum(x) % 2 == 1

    def fits(a, b):
        return odd(a) and odd(b) and max(map(abs, a + b)) <= 20

    def vanish(f, m, x):
        """f changed by 2 in two places so that f(x) = 0 mod m."""
        pw = [pow(x, i, m) for i in range(n)]
        want = -sum(a * b for a, b in zip(f, pw)) % m
        tab = {2 * s * pw[i] % m: (i, 2 * s) for i in range(n) for s in (1, -1)}
        for i in r.sample(range(n), n):
            for s in (1, -1):
                h = tab.get((want - 2 * s * pw[i]) % m)
                if h and h[0] != i:
                    c = list(f)
                    c[i] += 2 * s
                    c[h[0]] += h[1]
                    return c
        return None

    def roots(m):
        psi = next(y for y in (pow(a, (m - 1) // (2 * n), m) for a in range(2, 99)) if pow(y, n, m) == m - 1)
        return [pow(psi, 2 * i + 1, m) for i in r.sample(range(n), n)]

    def short(a, b):
        v = gs(a, b)
        return v[0] <= BOUND * .9999 and v[1] <= BOUND * .9999

    def find(kind, f, g):
        sd = 1.17 * math.sqrt(Q / (2 * n))
        if kind == "not-invertible":
            for x in roots(Q):
                a = vanish(f, Q, x)
                if a and fits(a, g) and short(a, g):
                    return a, list(g)
        elif kind == "common-factor":
            for x in roots(p):
                a, b = vanish(f, p, x), vanish(g, p, x)
                if a and b and fits(a, b) and short(a, b) and all(ref.ntt(a)):
                    return a, b
        else:
            for _ in range(3000):
                a, b = ([int(round(r.gauss(0, sd))) for _ in range(n)] for _ in range(2))
                u, v = gs(a, b)
                if not (fits(a, b) and all(ref.ntt(a))):
                    continue
                if kind == "long" and BOUND * 1.0001 < u < BOUND * 1.1 and v <= BOUND * .9999:
                    return a, b
                if kind == "long-dual" and BOUND * 1.0001 < v < BOUND * 1.1 and u <= BOUND * .9999:
                    return a, b
        return None

    for i in range(count):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        while True:
            f, g, F, G = pykeys.polys(n, r)
            if odd(f) and odd(g) and max(gs(f, g)) < BOUND * .998 and max(map(abs, f + g)) <= 18:
                break
        kind = ["not-invertible", "common-factor", "long", "long-dual"][i % 4]
        t = find(kind, f, g)
        if t is None:
            w.ev("not-found-" + kind)
            continue
        a, b = t
        tape = words(a, per) + words(b, per) + words(f, per) + words(g, per)
        pos = [0]

        def rb(k):
            o = tape[pos[0]:pos[0] + k]
            pos[0] += k
            if len(o) < k:
                raise EOFError
            return o
        case = {"n": n, "kind": kind, "bad": [a, b], "good": [f, g]}
        w.now(case)
        v, e = pyref.call(N.ntru_gen, n, randombytes=rb, logn=lg)
        w.ev("offered-" + kind)
        w.case(repr((a, b)))
        if e is not None:
            if not isinstance(e, EOFError):
                raise e
            w.violation("refuses-good", "ntru_gen(%d) passes over a good (f, g)" % n, case)
        elif [list(map(int, x)) for x in v[:2]] == [a, b]:
            w.violation("accepts-" + kind, "ntru_gen(%d) takes an (f, g) that is %s" % (n, kind), case)
        elif [list(map(int, x)) for x in v[:2]] != [f, g]:
            w.violation("offered", "ntru_gen(%d) makes another (f, g) of the random bytes" % n, case)
        else:
            good(w, [list(map(int, x)) for x in v], "ntru_gen on offered candidates", case)


def plan(R):
    k = 1 if R.quick else 25
    t = [("generate", dict(n=1024, count=1 if R.quick else 6))]
    t += [("generate", dict(n=512, count=3 * k, part=p)) for p in range(4)]
    t += [("generate", dict(n=256, count=6 * k)), ("generate", dict(n=128, count=10 * k)), ("generate", dict(n=64, count=12 * k))]
    t += [("generate", dict(n=n, count=12 * k)) for n in (2, 4, 8, 16, 32)]
    t += [("offered", dict(n=512, count=4 * k, part=p)) for p in range(3)]
    t += [("offered", dict(n=256, count=4 * k)), ("algebra", dict(count=400 * k)), ("reduction", dict(count=60 * k)), ("solve", dict(count=80 * k)), ("norms", dict(count=200 * k))]
    return t


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("P09", "one key, candidate, reduction or ring operation compared with exact arithmetic; distinct by operands or seed",
               {f.__name__: strip(f) for f in (algebra, reduction, solve, norms, generate, offered)}, plan,
               {"algebra": 300, "reductions": 50, "solvable": 20, "unsolvable": 15, "norms": 100, "generated-mkgauss": 30, "generated-samplerz": 30,
                "regenerated": 40, "secret-keys": 40, "offered-not-invertible": 2, "offered-common-factor": 1, "offered-long": 2, "offered-long-dual": 2},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)"])
