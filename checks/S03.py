"""S03: the contracts' hash functions: SHAKE256 in pieces, Keccak-f, and the three hash-to-point streams."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import pool, pyspec, ref, solx
from vh.ref import Q

N = 512
H = "src/ZKNOX_HashToPoint.sol"
S = "src/ZKNOX_shake.sol"
LIMIT = 5 * Q


def tetration(salt, msg):
    t, out = ref.keccak256(msg + salt), []
    while True:
        out += [v % Q for v in (int.from_bytes(t[i:i + 2], "big") for i in range(0, 32, 2)) if v < LIMIT]
        if len(out) >= N:
            return out[:N]
        t = ref.keccak256(t)


def evm(salt, msg):
    return [int(v) for v in pyspec.h2p("KeccakPRNG", salt, msg, N)] if len(salt) + len(msg) <= 4096 else evm_long(salt, msg)


def evm_long(salt, msg):
    st, out, i = ref.keccak256(salt + msg), [], 0
    while len(out) < N:
        t = ref.keccak256(st + i.to_bytes(8, "big"))
        out += [v % Q for v in (int.from_bytes(t[k:k + 2], "big") for k in range(0, 32, 2)) if v < LIMIT]
        i += 1
    return out[:N]


KINDS = {"hashToPointEVM": evm, "hashToPointNIST": lambda s, m: [int(v) for v in pyspec.h2p("SHAKE", s, m, N)], "hashToPointTETRATION": tetration}


def words_of(name, salt, msg):
    if name == "hashToPointNIST":
        b = ref.shake256(salt + msg, 1090)
    elif name == "hashToPointEVM":
        st = ref.keccak256(salt + msg)
        b = b"".join(ref.keccak256(st + i.to_bytes(8, "big")) for i in range(34))
    else:
        b = t = ref.keccak256(msg + salt)
        for _ in range(33):
            t = ref.keccak256(t)
            b += t
    return [int.from_bytes(b[i:i + 2], "big") for i in range(0, 1088, 2)]


def points(w, name, count):
    r = w.rng
    f = KINDS[name]
    for i in range(count):
        ls = r.choice([40, 40, 40, 40, 0, 1, 39, 41, 136, r.randrange(300)])
        lm = r.choice([32, 32, 0, 1, 64, 95, 96, 97, 23, 24, 25, 231, 232, 233, 4095, r.randrange(700)])
        salt, msg = r.randbytes(ls), r.randbytes(lm)
        if i % 3 == 0:  # a stream that holds the first rejected value, or the last accepted one
            edge = r.choice([LIMIT, LIMIT - 1, LIMIT, 0, 65535, 4 * Q, Q])
            for _ in range(150):
                salt = r.randbytes(40)
                if edge in words_of(name, salt, msg[:200])[:500]:
                    msg = msg[:200]
                    w.ev("edge-%d" % edge)
                    break
        case = {"function": name, "salt": salt, "message": msg}
        w.now(case)
        w.ev(name)
        w.case((name, salt, msg))
        got, want = solx.free(H, name, salt, msg), f(salt, msg)
        if got != (True, want):
            bad = [j for j in range(min(N, len(got[1]))) if got[1][j] != want[j]][:5] if got[0] else solx.why(got[1])
            w.violation(name, "%s is not the documented point (salt of %d, message of %d bytes; %s)" % (name, len(salt), len(msg), bad), case)
        w.sample({"function": name, "salt": salt.hex()[:40], "first": want[:4]}, 2)


def pieces(r, data):
    out = []
    while data:
        k = min(len(data), r.choice([0, 1, 2, 7, 8, 31, 32, 33, 135, 136, 137, 272, r.randrange(1, 300)]))
        out.append(data[:k])
        data = data[k:]
    return out + [b""] * r.randrange(2)


def shake(w, count):
    r = w.rng
    for i in range(count):
        data = r.randbytes(r.choice([0, 1, 7, 8, 135, 136, 137, 271, 272, 273, r.randrange(600)]))
        case = {"data": data}
        w.case(data)
        ctx = solx.free(S, "shakeInit")[1]
        for x in pieces(r, data):
            w.now(dict(case, piece=len(x)))
            ok, ctx = solx.free(S, "shakeUpdate", ctx, x)
            if not ok:
                w.violation("shakeUpdate", "shakeUpdate reverts: %s" % solx.why(ctx), case)
                return
        n = r.choice([0, 1, 32, 64, 135, 136, 137, 272, 273, r.randrange(500)])
        w.ev("digest")
        got = solx.free(S, "shakeDigest", ctx, n)
        if got != (True, ref.shake256(data, n)):
            w.violation("shakeDigest", "shakeDigest(%d) of %d bytes is wrong" % (n, len(data)), dict(case, out=n))
        ok, ctx = solx.free(S, "shakePad", ctx)
        out = b""
        w.ev("squeeze")
        while ok and len(out) < 300 and len(out) < 20 + 100 * (i % 8):
            k = r.choice([0, 1, 2, 8, 32, 135, 136, 137, r.randrange(200)])
            ok, v = solx.free(S, "shakeSqueeze", ctx, k)
            if ok:
                ctx, x = v
                out += x
        if not ok or out != ref.shake256(data, len(out)):
            w.violation("shakeSqueeze", "squeezing %d bytes in pieces after %d bytes gives another stream" % (len(out), len(data)), case)


def keccak_f(w, count):
    import numpy as np
    r = w.rng
    for i in range(count):
        st = [r.choice([0, 1, 1 << 63, (1 << 64) - 1, r.getrandbits(64)]) if i % 2 else r.getrandbits(64) for _ in range(25)]
        if i == 0:
            st = [0] * 25
        w.now({"state": st})
        w.ev("f1600")
        w.case(repr(st))
        want = f1600(st)
        if solx.have(S, "f1600") and solx.free(S, "f1600", st) != (True, want):
            w.violation("f1600", "f1600 of %s is wrong" % st, {"state": st})
        buf = [r.choice([0, 255, r.randrange(256)]) for _ in range(200)]
        mixed = [s ^ int.from_bytes(bytes(buf[8 * j:8 * j + 8]), "little") for j, s in enumerate(st)]
        if solx.have(S, "shakePermute"):
            ok, v = solx.free(S, "shakePermute", buf, st)
            if not ok or v[1] != f1600(mixed):
                w.violation("shakePermute", "shakePermute does not mix the buffer into the state", {"state": st, "buffer": buf})
        x = r.getrandbits(256)
        if i % 2 and solx.have(H, "splitToHex"):
            w.ev("split")
            if solx.free(H, "splitToHex", x) != (True, [x >> (240 - 16 * j) & 0xffff for j in range(16)]):
                w.violation("splitToHex", "splitToHex(%x) is wrong" % x, {"x": hex(x)})


def f1600(a):
    """FIPS 202, 3.3"""
    M = (1 << 64) - 1
    rot = lambda v, k: ((v << k) | (v >> (64 - k))) & M if k else v
    A = [[a[x + 5 * y] for y in range(5)] for x in range(5)]
    R = 1
    for rnd in range(24):
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[x - 1] ^ rot(C[(x + 1) % 5], 1) for x in range(5)]
        A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
        x, y, cur = 1, 0, A[1][0]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, A[x][y] = A[x][y], rot(cur, (t + 1) * (t + 2) // 2 % 64)
        A = [[A[x][y] ^ (~A[(x + 1) % 5][y] & M & A[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        for j in range(7):
            if R & 1:
                A[0][0] ^= 1 << ((1 << j) - 1)
            R = (R << 1) ^ ((R >> 7) * 0x171)
    return [A[i % 5][i // 5] for i in range(25)]


def plan(R):
    k = 1 if R.quick else 25
    t = [("points", dict(name="hashToPointNIST", count=150 * k, part=p)) for p in range(3)]
    t += [("points", dict(name="hashToPointEVM", count=400 * k)), ("points", dict(name="hashToPointTETRATION", count=200 * k))]
    t += [("shake", dict(count=150 * k, part=p)) for p in range(2)]
    return t + [("keccak_f", dict(count=400 * k))]


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("S03", "one hash compared with the model; distinct by its inputs", {f.__name__: strip(f) for f in (points, shake, keccak_f)}, plan,
               {"hashToPointNIST": 300, "hashToPointEVM": 300, "hashToPointTETRATION": 150, "digest": 200, "squeeze": 200, "f1600": 300, "edge-61445": 30, "edge-61444": 10},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled"])
