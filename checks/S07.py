"""S07: the recursive fork under external/: its arithmetic is Z_q[X]/(X^n + 1) and its verifier accepts the short
solutions only."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, pyspec, ref, solx
from vh.ref import Q
from vh.sol import rt

N = 512
BOUND = pyspec.BOUND[N]
A = "uint256[]"
SIGT = ("struct", "Signature", [("salt", ("bytes",)), ("s1", ("arr", ("int", 256), None))])


def world():
    solx.file("external/ETHFalcon_Recursive.sol")
    ch = solx.Chain()
    return ch, ch.deploy("ETHFalcon"), ch.deploy("NTT")


def tetration(salt, msg):
    t, out = ref.keccak256(msg + salt), []
    while True:
        out += [v % Q for v in (int.from_bytes(t[i:i + 2], "big") for i in range(0, 32, 2)) if v < 5 * Q]
        if len(out) >= N:
            return out[:N]
        t = ref.keccak256(t)


def mulq(a, b):
    n = len(a)
    if n == N:
        return ref.mulq(a, b).tolist()
    c = [0] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            c[(i + j) % n] += x * y * (-1 if i + j >= n else 1)
    return [v % Q for v in c]


def arith(w, count):
    r = w.rng
    ch, _, ntt = world()

    def go(f, *a):
        return ch.call(ntt, f + "(" + ",".join([A] * len(a)) + ")", *a, rets=A)
    for i in range(count):
        n = r.choice([N, N, 2, 4, 8, 16, 32, 64, 128, 256])
        a, b = ([r.choice([0, Q - 1]) for _ in range(n)] if r.random() < .1 else [r.randrange(Q) for _ in range(n)] for _ in range(2))
        case = {"n": n, "a": a, "b": b}
        w.now(case)
        w.case((tuple(a), tuple(b)))
        w.ev("arithmetic")
        want = {"addZQ": [(x + y) % Q for x, y in zip(a, b)], "subZQ": [(x - y) % Q for x, y in zip(a, b)], "mulNTT": [x * y % Q for x, y in zip(a, b)], "mulZQ": mulq(a, b)}
        for f, v in want.items():
            if go(f, a, b) != (True, v):
                w.violation(f, "%s is wrong for %d coefficients" % (f, n), case)
        ok, v = go("negZQ", a)
        if not ok or [x % Q for x in v] != [-x % Q for x in a]:
            w.violation("negZQ", "negZQ is wrong", case)
        ok, t = go("nTT", b)
        if not ok or go("iNTT", t) != (True, b) or go("mulZQ_opt", a, t) != (True, want["mulZQ"]):
            w.violation("nTT", "nTT is not inverted by iNTT, or mulZQ_opt is not the product (%d coefficients)" % n, case)


def verify(w, count):
    r = w.rng
    ch, at, ntt = world()
    for i in range(count):
        salt, msg = r.randbytes(40), r.randbytes(r.choice([0, 1, 32, 32, r.randrange(300)]))
        c = tetration(salt, msg)
        total = BOUND + r.choice([1, 1, -1, -1, -1, -1, 2, -10, -r.randrange(BOUND), r.randrange(BOUND)])
        if i % 7 == 0:
            f = None
            while f is None:
                f = ref.forge(r, c, s1=[0] * N, s2=[r.randrange(-6144, 6145) for _ in range(N)])
            s0, s1, h = f
        else:
            s0, s1, h = pyspec.forge(r, N, c, total)
        cases = [("squared norm %d" % ref.norm2(s0, s1), salt, msg, s1, h)]
        j = r.choice([0, 511, r.randrange(N)])
        x = list(s1)
        x[j] += r.choice([1, -1])
        cases.append(("coefficient %d of s1 changed" % j, salt, msg, x, h))
        x = list(s1)
        x[j] += Q * r.choice([1, -1, 2, -2, 1 << 200])
        cases.append(("coefficient %d of s1 is %d" % (j, x[j]), salt, msg, x, h))
        k = r.choice([1, 8, 39, 40])
        if i % 3 == 0:
            cases.append(("message changed", salt, msg + b"x", s1, h))
            cases.append(("salt changed", salt[1:] + salt[:1], msg, s1, h))
            cases.append(("lengths of s1", salt, msg, r.choice([s1[:-1], s1 + [0], []]), h))
            cases.append(("lengths of h", salt, msg, s1, r.choice([h[:-1], h + [0], []])))
        if i % 3 == 1:
            cases.append(("message and salt cut elsewhere", salt[k:], msg + salt[:k], s1, h))
            cases.append(("message and salt cut elsewhere", msg[len(msg) // 2:] + salt, msg[:len(msg) // 2], s1, h))
        for why, sa, m, s, p in cases:
            case = {"why": why, "salt": sa, "message": m, "s1": s, "h": p}
            w.now(case)
            w.case(repr(case))
            must = None
            if len(sa) != 40 or len(s) != N or len(p) != N:
                must = False
            else:
                sc = ref.centre(np.asarray([v % Q for v in s]))
                d = ref.centre(np.asarray(tetration(sa, m)) - ref.mulq(sc, p))
                nn = ref.norm2(d, sc)
                if nn > BOUND:
                    must = False
                elif nn < BOUND and all(abs(v) < Q for v in s):
                    must = True
            for f in ("verify", "verify_nttpub"):
                key = p
                if f == "verify_nttpub":
                    ok, key = ch.call(ntt, "nTT(uint256[])", p, rets=A) if len(p) == N else (True, p)
                data = rt.selector(f + "(bytes,(bytes,int256[]),uint256[])") + rt.enc([("bytes",), SIGT, ("arr", ("uint", 256), None)], [m, [sa, [v for v in s]], key])
                ok, v = ch.call(at, f + "()", data=data, rets="address")
                w.ev("accepted" if ok else "refused")
                if must is not None and ok != must:
                    w.violation(f, "%s %s (%s)" % (f, "accepts" if ok else "reverts: " + solx.why(v), why), case)


def plan(R):
    k = 1 if R.quick else 15
    return [("verify", dict(count=8 * k, part=p)) for p in range(5)] + [("arith", dict(count=30 * k, part=p)) for p in range(3)]


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("S07", "one call of the fork's contracts; distinct by its inputs", {f.__name__: strip(f) for f in (arith, verify)}, plan,
               {"arithmetic": 60, "accepted": 20, "refused": 100},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled"])
