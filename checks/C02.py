"""C02: the C verifiers accept exactly what the Falcon predicate accepts, on hostile inputs."""
import math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib, frm
from vh.ref import N, Q, BOUND


def wire(kind, nonce, msg, esig):
    return len(esig).to_bytes(2, "big") + nonce + msg + esig


def enc(kind, s2):
    if kind == "zknox":
        return b"\x29" + ref.pack([int(v) % Q for v in s2], 16)
    c = ref.comp_encode(s2)
    return None if c is None else b"\x29" + c


def judge(w, L, mode, kind, sm, pk, what):
    zk = kind == "zknox"
    exp, msg = ref.open_verdict(sm, pk, mode, zk)
    case = {"mode": mode, "kind": kind, "what": what, "sm": sm, "pk": pk}
    w.now(case)
    r, m, clean = L.open(kind, sm, pk)
    w.ev("verdicts")
    w.ev("expect_" + exp)
    w.case((mode, kind, what, exp, sm[:8], sm[-8:], len(sm)))
    if (r == 0) != (exp == "ok"):
        w.violation("verdict:" + what.split("/")[0], "%s %s %s: returned %d, the predicate says %s" % (mode, kind, what, r, exp), case)
        return exp
    if r == 0 and m != msg:
        w.violation("message", "%s: opened to other bytes than the signed message" % what, case)
    if r != 0 and not clean:
        w.violation("released", "%s: output written although the signature was refused" % what, case)
    return exp


def craft(w, mode, san, n, part):
    """Keys built around chosen short vectors: every norm, every coefficient, is ours to choose."""
    L = Lib(mode, san)
    rng = w.rng
    for i in range(n):
        kind = ("nist", "zknox")[i % 2]
        zk = kind == "zknox"
        nonce, msg = rng.randbytes(40), rng.randbytes(rng.choice([0, 1, 40, 96, 97, 200, rng.randrange(600)]))
        hm = ref.hash_to_point(nonce + msg, mode)
        what = rng.choice(["norm", "norm", "norm", "corner", "corner", "oneside", "wrap", "garbage"])
        cap = 6144 if zk else 2047
        if what == "norm":
            d = rng.choice([0, 1, -1, 0, 2, -2, 1000, -1000, rng.randrange(-10 ** 6, 10 ** 6)])
            s1, s2, h = ref.forge(rng, hm, target=BOUND + d)
            what = "norm/%+d" % d if abs(d) < 3 else "norm/far"
        elif what == "corner":
            # few big coefficients in chosen places
            s2 = [0] * N
            for _ in range(rng.choice([1, 1, 2, 5])):
                s2[rng.choice([0, 1, 255, 256, 510, 511, rng.randrange(N)])] = rng.choice([cap, -cap, cap - 1, 1, -1, 2047, -2047, 128, -128, 127, -127])
            if not any(s2):
                s2[0] = 1
            f = ref.forge(rng, hm, s2=s2, scale=rng.choice([1, 100, 200]))
            if f is None:
                continue
            s1, s2, h = f
        elif what == "oneside":
            # all the weight in one half, the norm just over/under through a single coefficient
            side = rng.choice([0, 1])
            a = [0] * N
            b = [0] * N
            b[rng.randrange(N)] = 1
            t = BOUND + rng.choice([0, 1])
            big = a if side == 0 else b
            rest = t - 1
            ids = rng.sample(range(N), 511)
            for j in ids:
                if big is b and b[j]:
                    continue
                m = min(int(rest ** 0.5), rng.choice([cap, 250, 600]))
                big[j] = m * rng.choice([1, -1])
                rest -= m * m
                if rest <= 0:
                    break
            f = ref.forge(rng, hm, s1=a, s2=b)
            if f is None:
                continue
            s1, s2, h = f
            what = "oneside/%d" % side
        elif what == "wrap":
            # huge norms, near multiples of 2^32
            s1 = [rng.choice([6144, -6144]) for _ in range(N)]
            s2 = [0] * N
            s2[0] = 1
            k = rng.choice([N, 200, 130, 113, 114])
            for j in range(k, N):
                s1[j] = 0
            f = ref.forge(rng, hm, s1=s1, s2=s2)
            s1, s2, h = f
        else:
            h = [rng.randrange(Q) for _ in range(N)]
            s2 = [rng.randrange(-cap, cap + 1) if rng.random() < .5 else int(rng.gauss(0, 165)) for _ in range(N)]
        e = enc(kind, s2)
        if e is None:
            continue
        pk = ref.pk_encode(h, zk)
        exp = judge(w, L, mode, kind, wire(kind, nonce, msg, e), pk, what)
        w.ev("crafted_" + ("ok" if exp == "ok" else "no"))
        if what in ("norm/+0", "norm/+1"):
            w.ev("at_bound")


def tweak_sig(rng, kind, s2, e):
    """A different signature encoding close to a valid one."""
    b = bytearray(e)
    k = rng.randrange(9)
    if kind == "zknox" and k < 5:
        j = rng.randrange(N)
        v = int(s2[j]) % Q
        if k == 0:
            v2 = v + Q
        elif k == 1:
            v2 = (int(s2[j]) & 0xFFFF) if s2[j] < 0 else v + 2 * Q
        elif k == 2:
            v2 = rng.choice([Q, Q + 1, 0x7FFF, 0x8000, 0xFFFF, 0xCFFF, v | 0x8000, v | 0x4000])
        elif k == 3:
            v2 = Q - 1 - v
        else:
            v2 = rng.randrange(65536)
        b[1 + 2 * j:3 + 2 * j] = (v2 & 0xFFFF).to_bytes(2, "big")
        return "word%d" % k, bytes(b)
    if kind == "nist" and k < 5:
        s = list(s2)
        bits = "".join("1" if v < 0 else "0" for v in [])
        # rebuild with a defect
        out = []
        z = rng.randrange(N)
        for i, v in enumerate(s):
            a = abs(int(v))
            if i == z:
                if k == 0:
                    out.append("1" + "0000000" + "1")          # minus zero
                    continue
                if k == 1:
                    a = rng.choice([2047, 2048, 2049, 2175, 4000])
                if k == 2:
                    a = 0
            out.append(("1" if v < 0 and a else "0") + format(a & 127, "07b") + "0" * (a >> 7) + "1")
        t = "".join(out)
        pad = -len(t) % 8
        if k == 3 and pad:
            t += format(rng.randrange(1, 1 << pad), "0%db" % pad)
        elif k == 4:
            t += "0" * pad + "0" * 8 * rng.randrange(1, 4)
        else:
            t += "0" * pad
        return "comp%d" % k, b"\x29" + int(t, 2).to_bytes(len(t) // 8, "big")
    if k == 5:
        b[0] = rng.choice([0x28, 0x2A, 0x39, 0x59, 0x09, 0x00, 0x19, 0x20, rng.randrange(256)])
        return "header", bytes(b)
    if k == 6:
        return "cut", bytes(b[:rng.choice([0, 1, 2, len(b) - 1, rng.randrange(len(b))])])
    if k == 7:
        return "extend", bytes(b) + (bytes(rng.randrange(1, 5)) if rng.random() < .5 else rng.randbytes(rng.randrange(1, 40)))
    j = rng.randrange(len(b))
    b[j] ^= 1 << rng.randrange(8)
    return "bitflip", bytes(b)


def mutate(w, mode, san, nkeys, n, part):
    """Genuine signatures, then hostile changes to every field of them."""
    L = Lib(mode, san)
    rng = w.rng
    for _ in range(nkeys):
        L.seed(rng.getrandbits(63))
        r, pk, sk = L.keypair(False)
        L.seed(rng.getrandbits(63))
        keys = {"nist": (pk, sk)}
        r, zpk, zsk = L.keypair(True)
        keys["zknox"] = (zpk, zsk)
        for i in range(n):
            kind = ("nist", "zknox")[i % 2]
            pk, sk = keys[kind]
            msg = rng.randbytes(rng.choice([0, 1, 5, 33, 96, 97, 1025, 1029]))
            r, sm = L.sign(kind, msg, sk)
            if r:
                w.violation("sign", "sign returned %d" % r, {"mode": mode, "sk": sk, "msg": msg})
                continue
            nonce, e = sm[2:42], sm[42 + len(msg):]
            s2 = ref.sig16_decode(e[1:]) if kind == "zknox" else ref.comp_decode(e[1:])[0]
            for j in range(8):
                if j == 0:
                    judge(w, L, mode, kind, sm, pk, "genuine")
                    continue
                x = rng.random()
                if x < .5:
                    what, e2 = tweak_sig(rng, kind, s2, e)
                    sm2, pk2 = wire(kind, nonce, msg, e2), pk
                elif x < .62:
                    b = bytearray(sm)
                    v = rng.choice([0, 1, len(e) - 1, len(e) + 1, 0xFFFF, len(sm) - 42, len(sm) - 41, len(sm), rng.randrange(65536)])
                    b[0:2] = (v & 0xFFFF).to_bytes(2, "big")
                    what, sm2, pk2 = "siglen", bytes(b), pk
                elif x < .7:
                    k = rng.choice([0, 1, 2, 3, 41, 42, 43, len(sm) - 1, rng.randrange(len(sm) + 1)])
                    what, sm2, pk2 = "smcut", sm[:k], pk
                elif x < .8:
                    b = bytearray(sm)
                    k = rng.randrange(2, 42 + len(msg))
                    b[k] ^= 1 << rng.randrange(8)
                    what, sm2, pk2 = "noncemsg", bytes(b), pk
                elif x < .88:
                    # -s2: the mirrored vector must not pass
                    e2 = enc(kind, [-v for v in s2])
                    what, sm2, pk2 = "negated", wire(kind, nonce, msg, e2), pk
                else:
                    b = bytearray(pk)
                    k = rng.randrange(5)
                    if k == 0:
                        b[0] = rng.choice([0, 8, 10, 0x19, 0x89, 0xFF])
                        what = "pkheader"
                    elif kind == "zknox":
                        q = rng.randrange(N)
                        v = (b[1 + 2 * q] << 8) | b[2 + 2 * q]
                        v = rng.choice([v + Q, v + 2 * Q, Q, Q - 1, 0x8000 | v, 65535, 0]) & 0xFFFF
                        b[1 + 2 * q:3 + 2 * q] = v.to_bytes(2, "big")
                        what = "pkword"
                    else:
                        h = ref.unpack(bytes(b[1:]), 14, N)[0]
                        q = rng.randrange(N)
                        h[q] = rng.choice([(h[q] + Q) & 16383, Q, Q - 1, 16383, 0])
                        b = bytearray(b"\x09" + ref.pack(h, 14))
                        what = "pkword"
                    sm2, pk2 = sm, bytes(b)
                judge(w, L, mode, kind, sm2, pk2, what)
            # right after an opening that succeeded: keys that differ in one coefficient, messages in one byte; then again
            bits = 16 if kind == "zknox" else 14
            h = ref.unpack(bytes(pk[1:]), bits, N)[0]
            for q in (N - 1, rng.choice([0, 1, rng.randrange(N)])):
                judge(w, L, mode, kind, sm, pk, "genuine")
                h2 = list(h)
                h2[q] = (h2[q] + rng.choice([1, Q - 1, rng.randrange(1, Q)])) % Q
                judge(w, L, mode, kind, sm, bytes(pk[:1]) + ref.pack(h2, bits), "keynext")
                b = bytearray(sm)
                b[rng.choice([2, 41, 41 + len(msg)])] ^= 1 << rng.randrange(8)
                judge(w, L, mode, kind, bytes(b), pk, "noncemsg")
            judge(w, L, mode, kind, sm, pk, "genuine")
            if i == 0:
                w.sample({"mode": mode, "kind": kind, "sm": sm[:60].hex()})


def raw(w, mode, san, n, part):
    """verify_raw for every degree against the predicate computed from the definition."""
    L = Lib(mode, san)
    rng = w.rng
    for i in range(n):
        logn = rng.randrange(1, 11)
        m = 1 << logn
        bound = ref.BOUNDS[logn]
        hm = [rng.randrange(Q) for _ in range(m)]
        sd = (bound / (2 * m)) ** .5
        while True:
            s2 = [int(rng.gauss(0, sd)) for _ in range(m)]
            s1 = [int(rng.gauss(0, sd)) for _ in range(m)]
            if rng.random() < .4:
                k = rng.randrange(m)
                s1[k] = min(6144, max(-6144, s1[k] + int(rng.choice([1, -1]) * bound ** .5 * rng.choice([.2, .5, 1.0]))))
            iv = ref.invq(s2)
            if iv is not None:
                break
        t = ref.norm2(s1, s2)
        # walk a coefficient of s1 so that the norm straddles the bound closely
        k = rng.randrange(m)
        other = t - s1[k] ** 2
        if other <= bound and rng.random() < .7:
            c = int((bound - other) ** .5)
            c += rng.choice([0, 0, 1])
            if c <= 6144:
                s1[k] = c * rng.choice([1, -1])
        h = [int(v) for v in ref.mulq([a - b for a, b in zip(hm, s1)], iv)]
        exp = ref.norm2(s1, s2) <= bound
        hb = L.u16(h)
        L.Z("to_ntt_monty")(hb, logn)
        case = {"logn": logn, "hm": hm if m <= 64 else hm[:16], "s1": s1 if m <= 64 else s1[:16], "s2": s2 if m <= 64 else s2[:16],
                "norm": ref.norm2(s1, s2), "bound": bound}
        w.now(case)
        got = L.Z("verify_raw")(L.u16(hm), L.i16(s2), hb, logn, L.tmp(2 * m))
        w.ev("raw_verdicts")
        w.ev("raw_ok" if exp else "raw_no")
        w.case(("raw", logn, exp, tuple(s1[:4])))
        if bool(got) != exp:
            w.violation("verify_raw", "degree %d norm %d bound %d: verify_raw says %d" % (m, case["norm"], bound, got), case)


def edge(w, n, part):
    """Degree 1024: coefficients at the ends of the centred range, decisive for the norm (the wrong end differs by q)."""
    L = Lib("shake", "")
    rng = w.rng
    logn, m = 10, 1024
    bound = ref.BOUNDS[logn]
    for i in range(n):
        hm = [rng.randrange(Q) for _ in range(m)]
        c = rng.choice([6144, -6144, 6144, -6144, 6143, -6143])
        d = rng.choice([0, 1, 2, 12288, 12289, rng.randrange(12290), -1])
        pos = rng.choice([0, m - 1, rng.randrange(m)])
        while True:
            s2 = [int(rng.gauss(0, 120)) for _ in range(m)]
            iv = ref.invq(s2)
            if iv is not None:
                break
        s1 = [int(rng.gauss(0, 120)) for _ in range(m)]
        s1[pos] = c
        rest = bound - d - ref.norm2(s1, s2)
        for j in rng.sample(range(m), m):
            if j == pos:
                continue
            if rest == 0:
                break
            t = rest + s1[j] ** 2
            if t >= 0:
                v = min(6143, math.isqrt(t))
                rest = t - v * v
                s1[j] = v * rng.choice([1, -1])
        e = ref.norm2(s1, s2) <= bound
        h = [int(v) for v in ref.mulq([a - b for a, b in zip(hm, s1)], iv)]
        hb = L.u16(h)
        L.Z("to_ntt_monty")(hb, logn)
        case = {"logn": logn, "hm": hm, "s1": s1, "s2": s2, "norm": ref.norm2(s1, s2), "bound": bound}
        w.now(case)
        got = L.Z("verify_raw")(L.u16(hm), L.i16(s2), hb, logn, L.tmp(2 * m))
        w.ev("edge_coefficients")
        w.ev("edge_close", int(abs(case["norm"] - bound) < 12290))
        w.case(("edge", c, d, tuple(s1[:6])))
        if bool(got) != e:
            w.violation("verify_raw", "degree %d, coefficient %d of s1, norm %d, bound %d: verify_raw says %d" % (m, c, case["norm"], bound, got), case)


def plan(R):
    build.prepare("shake", "eth", "shake/asan", "eth/asan")
    t = []
    q = R.quick
    for p in range(2 if q else 4):
        for mode in ("shake", "eth"):
            t.append(("craft", dict(mode=mode, san="", n=900 if q else 25000, part=p), ""))
            t.append(("mutate", dict(mode=mode, san="", nkeys=3 if q else 40, n=50 if q else 120, part=p), ""))
    t.append(("raw", dict(mode="shake", san="", n=2000 if q else 40000, part=0), ""))
    t.append(("edge", dict(n=150 if q else 3000, part=0)))
    for mode in ("shake", "eth"):
        t.append(("mutate", dict(mode=mode, san="asan", nkeys=1 if q else 10, n=30 if q else 100, part=9), "asan"))
    return t


if __name__ == "__main__":
    pool.check("C02", "a (public key, signed message) pair handed to a verifier, by mutation class and expected verdict",
               {"craft": craft, "mutate": mutate, "raw": raw, "edge": edge}, plan,
               {"verdicts": 3000, "crafted_ok": 200, "crafted_no": 200, "at_bound": 100, "expect_norm": 200,
                "expect_encoding": 200, "expect_ok": 300, "edge_close": 100, "raw_ok": 300, "raw_no": 300})
