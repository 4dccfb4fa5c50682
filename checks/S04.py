"""S04: the contracts' transforms and packed formats are the arithmetic of Z_q[X]/(X^n + 1), and a table that was made
immutable stays."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, ref, solx
from vh.ref import Q

N = 512
F = "src/ZKNOX_NTT_falcon.sol"
U = "src/ZKNOX_falcon_utils.sol"
C = "src/ZKNOX_common.sol"
D = "src/ZKNOX_falcon_deploy.sol"
A, L = "uint256[]", "address"


def brv(i, bits):
    return int(format(i, "0%db" % bits)[::-1], 2)


PSI = [pow(49, brv(i, 9), Q) for i in range(N)]
PSI_INV = [pow(49, -brv(i, 9), Q) for i in range(N)]


def ntt(a):
    """evaluations at psi^(2 brv(i) + 1), any power of two up to 512"""
    n = len(a)
    if n == N:
        return [int(v) for v in ref.ntt(a)]
    root = pow(49, N // n, Q)
    k = n.bit_length() - 1
    out = []
    for i in range(n):
        x = pow(root, 2 * (brv(i, k) if k else 0) + 1, Q)
        v = 0
        for c in reversed(a):
            v = (v * x + c) % Q
        out.append(v)
    return out


def mulq(a, b):
    n = len(a)
    c = np.convolve(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return [int(v) % Q for v in [c[i] - (c[i + n] if i + n < 2 * n - 1 else 0) for i in range(n)]]


def poly(r, n):
    k = r.randrange(8)
    if k == 0:
        return [r.choice([0, Q - 1]) for _ in range(n)]
    if k == 1:
        v = [0] * n
        v[r.choice([0, n - 1, r.randrange(n)])] = r.choice([1, Q - 1, r.randrange(Q)])
        return v
    if k == 2:
        return [r.choice([0, 1, 6144, 6145, Q - 1])] * n
    return [r.randrange(Q) for _ in range(n)]


def same(w, what, got, want, case):
    w.ev(what.split("(")[0])
    w.case((what, repr(case)))
    if got is not None and got != (True, want):
        d = [i for i in range(min(len(want), len(got[1]))) if want[i] != got[1][i]][:5] if got[0] and isinstance(want, list) and isinstance(got[1], list) else (got[1] if got[0] else solx.why(got[1]))
        w.violation(what, "%s is wrong: %s" % (what, str(d)[:200]), case)


def contract(w, count):
    r = w.rng
    ch = solx.Chain()
    deployed = {}
    for i in range(count):
        n = r.choice([N, N, N, 2, 4, 8, 16, 64, 128, 256])
        if n not in deployed:
            fw, inv = 0xCACA00 + n, 0xA5A500 + n
            ch.etch(fw, b"".join(v.to_bytes(32, "big") for v in PSI))
            ch.etch(inv, b"".join(v.to_bytes(32, "big") for v in PSI_INV))
            deployed[n] = (ch.deploy("ZKNOX_NTT", fw, inv, Q, pow(n, -1, Q)), fw, inv)
        at, fw, inv = deployed[n]
        a, b = poly(r, n), poly(r, n)
        ta, tb = ntt(a), ntt(b)
        ab = mulq(a, b)
        case = {"n": n, "a": a, "b": b}
        w.now(case)

        def go(sig, *args):
            return ch.call(at, sig, *args, rets=A)
        k = i % 3
        if k == 0:
            same(w, "stateless ZKNOX_NTTFW", go("ZKNOX_NTTFW(uint256[],uint256)", a, Q), ta, case)
            same(w, "stateless ZKNOX_NTTINV", go("ZKNOX_NTTINV(uint256[],uint256)", ta, Q), a, case)
            same(w, "mul_NTTPoly", go("mul_NTTPoly(uint256[],uint256[],uint256)", a, b, Q), ab, case)
            same(w, "stateless ZKNOX_NTT_HALFMUL", go("ZKNOX_NTT_HALFMUL(uint256[],uint256[],uint256)", a, tb, Q), ab, case)
        elif k == 1:
            for p in ("", "_"):
                same(w, p + "ZKNOX_NTTFW", go(p + "ZKNOX_NTTFW(uint256[],address)", a, fw), ta, case)
                same(w, p + "ZKNOX_NTTINV", go(p + "ZKNOX_NTTINV(uint256[],address)", ta, inv), a, case)
        else:
            same(w, "ZKNOX_NTT_HALFMUL", go("ZKNOX_NTT_HALFMUL(uint256[],uint256[])", a, tb), ab, case)
            same(w, "ZKNOX_NTT_MUL", go("ZKNOX_NTT_MUL(uint256[],uint256[])", a, b), ab, case)
            if n == N:
                same(w, "ZKNOX_NTT_HALFMUL_Compact", go("ZKNOX_NTT_HALFMUL_Compact(uint256[],uint256[])", solx.compact(a), solx.compact(tb)), solx.compact(ab), case)
        m = r.choice([Q, Q, 8380417, (1 << 31) - 1, (1 << 255) - 19, 2])
        ln = r.choice([0, 1, 2, 31, n])
        x, y = [r.choice([0, m - 1, r.randrange(m)]) for _ in range(ln)], [r.choice([0, m - 1, r.randrange(m)]) for _ in range(ln)]
        case = {"x": x, "y": y, "q": str(m)}
        for p in ("", "_"):
            same(w, p + "ZKNOX_VECMULMOD", go(p + "ZKNOX_VECMULMOD(uint256[],uint256[],uint256)", x, y, m), [u * v % m for u, v in zip(x, y)], case)
        same(w, "ZKNOX_VECADDMOD", go("ZKNOX_VECADDMOD(uint256[],uint256[],uint256)", x, y, m), [(u + v) % m for u, v in zip(x, y)], case)
        same(w, "ZKNOX_VECSUBMOD", go("ZKNOX_VECSUBMOD(uint256[],uint256[],uint256)", x, y, m), [(u - v) % m for u, v in zip(x, y)], case)
        for f in ("ZKNOX_VECMULMOD", "ZKNOX_VECADDMOD", "ZKNOX_VECSUBMOD"):
            got = go(f + "(uint256[],uint256[],uint256)", x + [1], y, m)
            w.ev("unequal-lengths")
            if got[0]:
                w.violation("lengths", "%s answers for %d and %d words" % (f, ln + 1, ln), case)


def fuse(w, count):
    """After make_immutable nobody changes what the contract computes; before, update does."""
    r = w.rng
    for i in range(count):
        ch = solx.Chain()
        fw, inv, junk = 0xCACA, 0xA5A5, 0xDEAD
        ch.etch(fw, b"".join(v.to_bytes(32, "big") for v in PSI))
        ch.etch(inv, b"".join(v.to_bytes(32, "big") for v in PSI_INV))
        ch.etch(junk, b"".join(r.randrange(Q).to_bytes(32, "big") for v in PSI_INV))
        n = r.choice([16, 32, 512])
        right = (fw, inv, Q, pow(n, -1, Q))
        def wrong():
            return tuple(r.choice([(junk, inv, Q, right[3]), (fw, junk, Q, right[3]), (fw, inv, 7681, right[3]), (fw, inv, Q, 1), (junk, junk, 3, 3)]))
        cur = wrong() if i % 2 else right
        at = ch.deploy("ZKNOX_NTT", *cur)
        frozen, steps = False, []
        for _ in range(r.randrange(3, 12)):
            k = r.random()
            who = r.choice([0xCA11, 1, at, r.getrandbits(160)])
            if k < .5:
                new = wrong() if r.random() < .5 else right
                ok, v = ch.call(at, "update(address,address,uint256,uint256)", *new, sender=who)
                steps.append("update%r -> %s" % (new, ok))
                if not frozen:
                    cur = new
                    w.ev("updated")
                else:
                    w.ev("update-after-freeze")
            elif k < .7:
                ch.call(at, "make_immutable()", sender=who)
                steps.append("make_immutable")
                frozen = True
            case = {"steps": steps, "n": n}
            w.now(case)
            w.case(repr(case))
            w.ev("history")
            got = ch.call(at, "o_psirev()", rets="address")[1], ch.call(at, "o_psi_inv_rev()", rets="address")[1]
            if got != cur[:2]:
                w.violation("fuse", "the tables are %r, should be %r, after %s" % (got, cur[:2], steps), case)
                break
            a, b = ([r.randrange(Q) for _ in range(n)] for _ in range(2))
            p = ch.call(at, "ZKNOX_NTT_MUL(uint256[],uint256[])", a, b, rets=A)
            if (p == (True, mulq(a, b))) != (cur == right):
                w.violation("fuse", "multiplication %s after %s" % ("is wrong" if cur == right else "still works with other parameters", steps), case)
                break


def internal(path, name, *args):
    """None if the function is gone: only the interface of the contracts has to stay"""
    return solx.free(path, name, *args) if solx.have(path, name) else None


def frees(w, count):
    r = w.rng
    for i in range(count):
        a, b = poly(r, N), poly(r, N)
        ta = ntt(a)
        case = {"a": a, "b": b}
        w.now(case)
        same(w, "_ZKNOX_NTTFW_vectorized", internal(F, "_ZKNOX_NTTFW_vectorized", a), ta, case)
        same(w, "_ZKNOX_NTTINV_vectorized", internal(F, "_ZKNOX_NTTINV_vectorized", ta), a, case)
        same(w, "_ZKNOX_VECMULMOD(a,b)", internal(F, "_ZKNOX_VECMULMOD", a, b), [x * y % Q for x, y in zip(a, b)], case)
        same(w, "_ZKNOX_NTT_HALFMUL_Compact", internal(F, "_ZKNOX_NTT_HALFMUL_Compact", solx.compact(a), solx.compact(ntt(b))), solx.compact(ref.mulq(a, b).tolist()), case)
        v = [r.choice([0, 65535, r.randrange(65536)]) for _ in range(N)]
        case = {"v": v}
        same(w, "_ZKNOX_NTT_Compact", internal(U, "_ZKNOX_NTT_Compact", v), solx.compact(v), case)
        same(w, "_ZKNOX_NTT_Expand", internal(U, "_ZKNOX_NTT_Expand", solx.compact(v)), v, case)
        big = [r.getrandbits(256) for _ in range(N)]
        same(w, "Swap", internal(U, "Swap", big), big[::-1], {"v": [hex(x) for x in big]})
        f32 = [r.choice([0, (1 << 256) - 1, r.getrandbits(256)]) for _ in range(32)]
        same(w, "ZKNOX_memcpy32", internal(C, "ZKNOX_memcpy32", f32), f32, {"v": [hex(x) for x in f32]})
        enc = b"".join(x.to_bytes(32, "big") for x in f32)
        same(w, "_packUint256Array", internal(C, "_packUint256Array", f32), enc, {"v": [hex(x) for x in f32]})
        salt = r.randbytes(40)
        same(w, "_packSignature", internal(C, "_packSignature", salt, f32), salt + enc, {"v": [hex(x) for x in f32], "salt": salt})
        same(w, "_Swap16", internal(D, "_Swap16", f32[0]), int.from_bytes(b"".join((f32[0] >> (16 * j) & 65535).to_bytes(2, "big") for j in range(16)), "big"), {"v": hex(f32[0])})
        same(w, "_Compact", internal(D, "_Compact", v), [int.from_bytes(b"".join(x.to_bytes(2, "big") for x in v[j:j + 16]), "big") for j in range(0, N, 16)], case)


def plan(R):
    k = 1 if R.quick else 25
    t = [("contract", dict(count=200 * k, part=p)) for p in range(4)]
    t += [("frees", dict(count=250 * k, part=p)) for p in range(2)]
    return t + [("fuse", dict(count=40 * k, part=p)) for p in range(2)]


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("S04", "one result compared with the model; distinct by operation and inputs", {f.__name__: strip(f) for f in (contract, fuse, frees)}, plan,
               {"stateless ZKNOX_NTTFW": 100, "ZKNOX_NTTFW": 100, "ZKNOX_NTT_HALFMUL_Compact": 50, "_ZKNOX_NTTFW_vectorized": 200, "_packSignature": 200,
                "unequal-lengths": 300, "history": 200, "updated": 50, "update-after-freeze": 50},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled"])
