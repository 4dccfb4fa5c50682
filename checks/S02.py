"""S02: on chain, recover names the one key under which the pair is a valid signature, or reverts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, pyspec, ref, solx
from vh.ref import Q

N = 512
BOUND = pyspec.BOUND[N]
KIND = {"ZKNOX_epervier": "SHAKE", "ZKNOX_ethepervier": "KeccakPRNG"}
SIG = "recover(bytes,bytes,uint256[],uint256[],uint256)"


def model(xof, msg, salt, s1, s2, hint):
    """address or None"""
    if len(salt) != 40 or len(s1) != N or len(s2) != N or max(s1) >= Q or max(s2) >= Q or hint >= Q:
        return None
    if ref.norm2(ref.centre(np.asarray(s1)), ref.centre(np.asarray(s2))) > BOUND:
        return None
    t = [int(v) for v in ref.ntt(s2)]
    p = 1
    for v in t:
        p = p * v % Q
    if p * hint % Q != 1:
        return None
    c = np.asarray(pyspec.h2p(xof, salt, msg, N), dtype=np.int64)
    return pyspec.address(ref.ntt(c - np.asarray(s1)) * np.asarray([pow(v, -1, Q) for v in t]) % Q)


def hint_of(s2):
    p = 1
    for v in ref.ntt(s2):
        p = p * int(v) % Q
    return pow(p, -1, Q) if p else 0


def noninvertible(r):
    """A short s2 whose transform has a zero: a short vector of the lattice of multiples of some (X - root) mod q."""
    while True:
        b = [int(r.gauss(0, 150)) for _ in range(N)]
        root = pow(49, 2 * r.randrange(N) + 1, Q)
        v = sum(x * pow(root, i, Q) for i, x in enumerate(b)) % Q
        j = r.randrange(N)
        b[j] -= v * pow(root, -j, Q) % Q if r.random() < 0 else 0
        # one coefficient fixes the value, but must stay small: look for a position where the correction is small
        for j in r.sample(range(N), N):
            d = v * pow(root, -j, Q) % Q
            d = d - Q if d > Q // 2 else d
            if abs(d) < 400:
                b[j] -= d
                return b


def recover(w, name, count):
    r = w.rng
    ch = solx.Chain()
    at = ch.deploy(name)
    xof = KIND[name]
    have = None
    for i in range(count):
        salt = r.randbytes(40)
        msg = r.randbytes(r.choice([0, 1, 32, 32, 32, 64, 95, 96, 97, 136, r.randrange(500)]))
        total = BOUND + r.choice([0, 0, 0, 1, 1, 1, -1, 2, -r.randrange(BOUND), r.randrange(BOUND)])
        c = pyspec.h2p(xof, salt, msg, N)
        k = i % 6
        if k == 5:
            s2 = noninvertible(r)
            s1 = [int(r.gauss(0, 100)) for _ in range(N)]
            w.ev("not-invertible")
        elif k == 4:  # sparse
            s1, s2 = [0] * N, [0] * N
            for _ in range(r.choice([1, 1, 2, 20])):
                s1[r.choice([0, 511, r.randrange(N)])] = r.choice([1, -1, 4000, -3000, 5833, -5834])
                s2[r.choice([0, 511, r.randrange(N)])] = r.choice([1, -1, 4000, -3000, 2])
        else:
            s1, s2, _ = pyspec.forge(r, N, c, total)
        s1, s2 = [int(v) % Q for v in s1], [int(v) % Q for v in s2]
        hint = hint_of(s2)
        cases = [("squared norm %d" % ref.norm2(ref.centre(np.asarray(s1)), ref.centre(np.asarray(s2))), msg, salt, s1, s2, hint)]
        j = r.choice([0, 511, r.randrange(N)])
        cases.append(("another hint", msg, salt, s1, s2, r.choice([(hint + 1) % Q, Q - hint, 0, 1, hint + Q, hint + Q * r.randrange(1, 1 << 200), (1 << 256) - 1 - r.randrange(3), r.randrange(Q), hint * hint % Q])))
        if i % 3 == 0:
            x = list(r.choice([s1, s2]))
            y = list(x)
            for _ in range(r.choice([1, 1, 3, N])):
                j = r.choice([0, 511, r.randrange(N)])
                y[j] = x[j] + Q * r.randrange(1, (65535 - x[j]) // Q + 1)
            cases.append(("lane %d at least q" % j, msg, salt, y if x == s1 else s1, y if x == s2 else s2, hint))
            x = list(s2)
            x[j] = (x[j] + r.choice([1, Q - 1])) % Q
            cases.append(("s2 changed", msg, salt, s1, x, hint))
            cases.append(("s2 and hint changed", msg, salt, s1, x, hint_of(x)))
            x = list(s1)
            x[j] = (x[j] + r.choice([1, Q - 1])) % Q
            cases.append(("s1 changed", msg, salt, x, s2, hint))
        if i % 3 == 1:
            cases.append(("message changed", r.choice([msg + b"\0", b"\0" + msg, msg[:-1], r.randbytes(32)]), salt, s1, s2, hint))
            cases.append(("salt changed", msg, r.choice([salt[:-1] + bytes([salt[-1] ^ 1]), bytes([salt[0] ^ 128]) + salt[1:]]), s1, s2, hint))
            cut = r.choice([0, 1, 39, 41, 64, 32])
            cases.append(("salt of %d bytes" % cut, msg, (salt + msg + bytes(64))[:cut], s1, s2, hint))
            if have:
                cases.append(("another signature's s2", msg, salt, s1, have[0], have[1]))
                cases.append(("another signature's hint", msg, salt, s1, s2, have[1]))
        have = s2, hint
        for why, m, sa, a, b, h in cases:
            case = {"contract": name, "why": why, "salt": sa, "message": m, "s1": a, "s2": b, "hint": str(h)}
            w.now(case)
            want = model(xof, m, sa, a, b, h)
            got = ch.call(at, SIG, m, sa, solx.compact(a), solx.compact(b), h, rets="address")
            told(w, name, want, got, case)
        if i % 8 == 0:
            A, B = solx.compact(s1), solx.compact(s2)
            for _ in range(3):
                n1, n2 = r.choice([(31, 32), (33, 32), (32, 31), (32, 33), (0, 32), (32, 0), (512, 32), (32, 512), (64, 64), (1, 1)])
                t = ((A + B) * 16)[:n1], ((B + A) * 16)[:n2]
                case = {"contract": name, "why": "%d words of s1, %d of s2" % (n1, n2), "salt": salt, "message": msg, "s1": t[0], "s2": t[1], "hint": hint}
                w.now(case)
                told(w, name, None, ch.call(at, SIG, msg, salt, t[0], t[1], hint, rets="address"), case)
        if i % 10 == 0:
            m = r.randbytes(r.choice([0, 1, 135, 136, 137, 16384, r.randrange(300)]))
            got = ch.call(at, "HashToAddress(bytes)", m, rets="address")
            w.ev("hash-to-address")
            if got != (True, int.from_bytes(ref.keccak256(m)[12:], "big")):
                w.violation("address", "HashToAddress answers %r" % (got,), {"message": m})


def told(w, name, want, got, case):
    ok, v = got
    w.ev(name)
    w.ev("refused" if want is None else "recovered")
    w.case(repr(case))
    if want is None and ok:
        w.violation("accepts", "%s.recover answers %040x, should revert (%s)" % (name, v, case["why"]), case)
    if want is not None and got != (True, want):
        w.violation("recover", "%s.recover answers %s, should answer %040x (%s)" % (name, "%040x" % v if ok else "revert " + solx.why(v), want, case["why"]), case)


def plan(R):
    k = 1 if R.quick else 25
    return [("recover", dict(name="ZKNOX_ethepervier", count=150 * k, part=p)) for p in range(4)] + \
        [("recover", dict(name="ZKNOX_epervier", count=90 * k, part=p)) for p in range(4)]


if __name__ == "__main__":
    pool.check("S02", "one call of recover; distinct by all its inputs", {"recover": lambda w, part, **k: recover(w, **k)}, plan,
               {"ZKNOX_ethepervier": 1000, "ZKNOX_epervier": 700, "recovered": 700, "refused": 1000, "not-invertible": 100},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled"])
