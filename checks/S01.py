"""S01: on chain, verify accepts exactly the short solutions of s1 + s2 h = H(salt || message) in canonical form."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, pyspec, ref, solx
from vh.ref import Q

N = 512
BOUND = pyspec.BOUND[N]
KIND = {"ZKNOX_falcon": "SHAKE", "ZKNOX_ethfalcon": "KeccakPRNG"}
SIG = "verify(bytes,bytes,uint256[],uint256[])"


def predicate(c, s2, u):
    """c: hashed point, s2 and u: lanes (u reduced)"""
    s1 = ref.centre(np.asarray(c, dtype=np.int64) - ref.intt((ref.ntt(s2) * np.asarray(u)) % Q))
    return ref.norm2(s1, ref.centre(np.asarray(s2, dtype=np.int64))) <= BOUND


def short(r, total):
    """Two short polynomials of this squared norm, from dense to sparse."""
    k = r.randrange(6)
    while True:
        a, b = [0] * N, [0] * N
        if k < 3:
            sc = (total / (2.0 * N)) ** 0.5
            fa = r.choice([1, 1, .2, 1.38])
            fb = max(0.1, 2 - fa * fa) ** 0.5
            a = [int(r.gauss(0, sc * fa)) for _ in range(N)]
            b = [int(r.gauss(0, sc * fb)) for _ in range(N)]
        else:
            left = total
            for _ in range(r.choice([1, 2, 5, 30])):
                p, j = r.choice([a, b]), r.choice([0, 1, 15, 16, 255, 256, 510, 511, r.randrange(N)])
                left += p[j] ** 2
                m = int(left ** .5)
                p[j] = r.choice([m, -m, r.randint(-m, m)])
                left -= p[j] ** 2
        ref.fix_norm(r, a, b, total)
        if ref.norm2(a, b) == total:
            return a, b


def told(w, what, want, got, case):
    """want True / False; a refusal may be a revert"""
    ok, v = got
    w.ev("accepted" if want else "refused")
    if (ok and v == 1) != want:
        w.violation(what, "%s answers %s, should %s (%s)" % (what, v if ok else "revert " + solx.why(v), "accept" if want else "refuse", case["why"]), case)


def verify(w, name, count):
    r = w.rng
    ch = solx.Chain()
    at = ch.deploy(name)
    xof = KIND[name]
    have = None
    for i in range(count):
        salt = r.randbytes(40)
        msg = r.randbytes(r.choice([0, 1, 31, 32, 32, 32, 32, 33, 64, 95, 96, 97, 135, 136, 137, 232, r.randrange(600)]))
        c = pyspec.h2p(xof, salt, msg, N)
        total = BOUND + r.choice([0, 0, 0, 1, 1, 1, -1, 2, -r.randrange(BOUND), r.randrange(BOUND), -r.randrange(100000), r.randrange(100000)])
        k = r.randrange(12)
        if k == 0:
            f = None
            while f is None:
                f = ref.forge(r, c, s1=[0] * N, s2=[r.randrange(-6144, 6145) for _ in range(N)])
            s1, s2, h = f
        else:
            s1, s2, h = pyspec.forge(r, N, c, total)
        s2 = [int(v) % Q for v in s2]
        u = [int(v) for v in ref.ntt(h)]
        cases = [("forged with squared norm %d" % ref.norm2(s1, ref.centre(s2)), salt, msg, s2, u)]
        j = r.choice([0, 511, r.randrange(N)])
        x = list(s2)
        x[j] = (x[j] + r.choice([1, Q - 1, 6144, 6145, Q - x[j], Q - 2 * x[j]])) % Q
        cases.append(("coefficient %d of s2 changed" % j, salt, msg, x, u))
        x = list(u)
        x[j] = (x[j] + r.choice([1, Q - 1, 6144])) % Q
        cases.append(("coefficient %d of the key changed" % j, salt, msg, s2, x))
        if k % 4 == 1:
            cases.append(("salt changed", r.choice([salt[:-1] + bytes([salt[-1] ^ 1]), bytes([salt[0] ^ 128]) + salt[1:], salt[1:] + salt[:1], r.randbytes(40)]), msg, s2, u))
            cases.append(("message changed", salt, r.choice([msg + b"\0", msg[:-1], b"\0" + msg, msg[1:], msg + b"\x80", r.randbytes(32)]), s2, u))
        if k % 4 == 2:
            x = list(s2)
            for _ in range(r.choice([1, 1, 1, 3, N])):
                j = r.choice([0, 511, r.randrange(N)])
                x[j] = s2[j] + Q * r.randrange(1, (65535 - s2[j]) // Q + 1)
            cases.append(("s2 with a lane that is at least q", salt, msg, x, u))
            x = list(u)
            for _ in range(r.choice([1, 1, 3, N])):
                j = r.randrange(N)
                x[j] = u[j] + Q * r.randrange(1, (65535 - u[j]) // Q + 1)
            cases.append(("key with a lane that is at least q", salt, msg, s2, x))
        if k % 4 == 3:
            cut = r.choice([0, 1, 8, 39, 41, 32, 72, 80])
            cases.append(("salt of %d bytes" % cut, (salt + msg + bytes(40))[:cut], msg[cut - 40:] if cut > 40 else salt[cut:] + msg, s2, u))
            if have:
                cases.append(("another signature's s2", salt, msg, have[0], u))
                cases.append(("another key", salt, msg, s2, have[1]))
        have = s2, u
        for why, sa, m, s, p in cases:
            case = {"contract": name, "why": why, "salt": sa, "message": m, "s2": s, "ntth": p}
            w.now(case)
            want = len(sa) == 40 and max(s) < Q and predicate(pyspec.h2p(xof, sa, m, N), s, [v % Q for v in p])
            got = ch.call(at, SIG, m, sa, solx.compact(s), solx.compact(p), rets="bool")
            w.ev(name)
            w.case((name, sa, m, tuple(s), tuple(p)))
            if max(p) >= Q and want and not (got[0] and got[1] is True):
                w.ev("unreduced-key-refused")
                continue
            told(w, "verify", want, got, case)
        # wrong numbers of words
        if i % 8 == 0:
            S, P = solx.compact(s2), solx.compact(u)
            for _ in range(4):
                n1, n2 = r.choice([(31, 32), (33, 32), (32, 31), (32, 33), (0, 32), (32, 0), (512, 32), (32, 512), (64, 64), (1, 1), (16, 32), (32, 16)])
                t = ((S + P) * 16)[:n1], ((P + S) * 16)[:n2]
                case = {"contract": name, "why": "%d words of s2, %d of the key" % (n1, n2), "salt": salt, "message": msg, "s2": t[0], "ntth": t[1]}
                w.now(case)
                told(w, "verify", False, ch.call(at, SIG, msg, salt, t[0], t[1], rets="bool"), case)
    w.sample({"contract": name, "functions": sum(1 for v in solx.hits().values() if v)})


def core(w, count):
    """falcon_core on chosen hashed points: any short pair, any key."""
    F = "src/ZKNOX_falcon_core.sol"
    r = w.rng
    for i in range(count):
        total = BOUND + r.choice([0, 0, 0, 1, 1, 1, -1, 2, -r.randrange(BOUND), r.randrange(BOUND)])
        s1, s2 = short(r, total)
        u = [r.choice([0, 1, Q - 1]) for _ in range(N)] if i % 9 == 0 else [r.randrange(Q) for _ in range(N)]
        if i % 11 == 0:
            u[r.randrange(N):] = []
            u += [0] * (N - len(u))
        s2 = [v % Q for v in s2]
        c = [int(v) for v in (np.asarray(s1) + ref.intt(ref.ntt(s2) * np.asarray(u) % Q)) % Q]
        case = {"why": "squared norm %d" % total, "s2": s2, "ntth": u, "hashed": c}
        w.now(case)
        w.case((tuple(s2), tuple(c)))
        w.ev("core")
        told(w, "falcon_core", predicate(c, s2, u), solx.free(F, "falcon_core", solx.compact(s2), solx.compact(u), c), case)
        x = list(s2)
        j = r.choice([0, 511, r.randrange(N)])
        x[j] += Q * r.randrange(1, (65535 - x[j]) // Q + 1)
        case = {"why": "lane %d of s2 at least q" % j, "s2": x, "ntth": u, "hashed": c}
        told(w, "falcon_core", False, solx.free(F, "falcon_core", solx.compact(x), solx.compact(u), c), case)
        if i % 5 == 0:
            y = solx.compact(s2)
            case = {"why": "wrong lengths", "s2": s2, "ntth": u, "hashed": c}
            told(w, "falcon_core", False, solx.free(F, "falcon_core", r.choice([y[:31], y + [0], [], y * 16]), solx.compact(u), c), case)
            told(w, "falcon_core", False, solx.free(F, "falcon_core", y, solx.compact(u), r.choice([c[:511], c + [0], []])), case)
        if solx.have(F, "falcon_checkPolynomialRange"):
            for _ in range(4):
                x = [r.randrange(Q) for _ in range(N)]
                for _ in range(r.choice([0, 1, 1, 2])):
                    x[r.choice([0, 511, r.randrange(N)])] = r.choice([Q, Q - 1, Q + 1, 65535, r.randrange(65536), 0])
                good = max(x) < Q
                w.ev("range")
                case = {"why": "largest value %d" % max(x), "polynomial": x}
                w.now(case)
                told(w, "falcon_checkPolynomialRange", good, solx.free(F, "falcon_checkPolynomialRange", solx.compact(x), True), case)
                told(w, "falcon_checkPolynomialRange", good, solx.free(F, "falcon_checkPolynomialRange", x, False), case)
                x[r.choice([0, 511, r.randrange(N)])] = r.choice([65536, 1 << 255, (1 << 256) - 1, 65536 + 5, 1 << 16 * r.randrange(1, 16)])
                case = {"why": "a word of more than 16 bits", "polynomial": x}
                told(w, "falcon_checkPolynomialRange", False, solx.free(F, "falcon_checkPolynomialRange", x, False), case)


def plan(R):
    k = 1 if R.quick else 25
    t = [("verify", dict(name="ZKNOX_ethfalcon", count=150 * k, part=p)) for p in range(3)]
    t += [("verify", dict(name="ZKNOX_falcon", count=45 * k, part=p)) for p in range(3)]
    t += [("core", dict(count=200 * k, part=p)) for p in range(2)]
    return t


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("S01", "one call of verify or falcon_core; distinct by all its inputs", {f.__name__: strip(f) for f in (verify, core)}, plan,
               {"ZKNOX_ethfalcon": 1000, "ZKNOX_falcon": 300, "core": 300, "accepted": 300, "refused": 1500},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled"])
