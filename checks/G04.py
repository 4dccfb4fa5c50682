"""G04: the other precompiles of the forked chain cost and answer what their EIPs say, at the same forks as ever."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, chain, gob, pool
from vh.chain import BNP, BLSP, BLSR, INF, SN

LIMIT = 3 * 10 ** 7     # nothing that costs more is run


class Points:
    """Points of each curve, in and out of the subgroup."""

    def __init__(self, rng):
        self.rng = rng
        self.base = {}
        for k, C, ext, h in (("bn1", chain.BN1, False, 1), ("bn2", chain.BN2, True, 1), ("b1", chain.B1, False, chain.H1), ("b2", chain.B2, True, chain.H2)):
            out = [C.some(rng, ext) for _ in range(2)]
            self.base[k] = [C, [C.times(h, p) for p in out], out]

    def get(self, k):
        r = self.rng
        C, ins, out = self.base[k]
        x = r.random()
        if x < .1:
            return INF
        if x < .14:
            return r.choice(out)
        p = r.choice(ins)
        if x < .24:
            return p[0], C.sub((0, 0), p[1])
        if x < .6:
            q = C.plus(p, r.choice(ins))
            ins[r.randrange(2)] = p if q == INF else q
        return p


def noncanonical(rng, b, mod, size):
    """One coordinate off: plus the modulus, the modulus itself, one bit or one leading byte changed."""
    i = rng.randrange(len(b) // size) * size
    n = int.from_bytes(b[i:i + size], "big")
    k = rng.randrange(5)
    if k == 0:
        n += mod
    elif k == 1:
        n = mod + rng.randrange(3)
    elif k == 2:
        n ^= 1 << rng.randrange(8 * size)
    elif k == 3:
        n = mod - 1 - rng.randrange(2)
    else:
        n |= rng.randrange(1, 256) << 8 * (size - 1 - rng.randrange(20))
    return b[:i] + (n % 256 ** size).to_bytes(size, "big") + b[i + size:]


def resize(rng, b, unit):
    return rng.choice([b[:-1], b[:rng.randrange(len(b) + 1)], b[:len(b) // 2], b + rng.randbytes(1), b + bytes(unit), b[:max(0, len(b) - unit)], b"", b + b, b + bytes(unit // 3), b + bytes(unit // 3 * 2), b[:len(b) // 32 * 32 - 32 * rng.randrange(4)]])


def word(rng, n):
    """A scalar of 32 bytes, of every kind."""
    return rng.choice([0, 1, 2, 3, n - 1, n, n + 1, 2 ** 256 - 1, 2 ** 128, rng.getrandbits(256), rng.randrange(n), rng.getrandbits(64)]).to_bytes(32, "big")


def make(rng, P, a):
    """An input of precompile a, right or nearly so."""
    if a == 1:
        v = rng.choice([27, 28]) if rng.random() < .8 else rng.choice([0, 1, 26, 29, 30, 31, 255, 27 + 256, 28 + (1 << rng.randrange(8, 256))])
        rs = [word(rng, SN) if rng.random() < .25 else rng.randrange(1, SN).to_bytes(32, "big") for _ in range(2)]
        b = rng.randbytes(32) + v.to_bytes(32, "big") + rs[0] + rs[1]
        x = rng.random()
        return b if x < .8 else b + rng.randbytes(rng.choice([1, 32, 100])) if x < .9 else b[:rng.choice([0, 1, 63, 64, 96, 127, rng.randrange(128)])]
    if a in (2, 3, 4):
        return rng.randbytes(rng.choice([0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 128, rng.randrange(1000)]))
    if a == 5:
        n = [rng.choice([0, 1, 2, 8, 9, 16, 31, 32, 33, 40, 64, 65, 72, rng.randrange(200)]) for _ in range(3)]
        ops = [rng.randbytes(k) if rng.random() < .7 else rng.choice([bytes(k), bytes(max(0, k - 1)) + b"\1"[:k], b"\xff" * k, bytes(k // 2) + rng.randbytes(k - k // 2)]) for k in n]
        if rng.random() < .2:
            i = rng.randrange(3)
            n[i] = rng.choice([1023, 1024, 1025, 2048, 2 ** 20, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + n[i], 2 ** 128, 2 ** 256 - 1, len(ops[i]) + 1])
        x = rng.random()
        if x < .05:      # a price that is a small multiple of a power of two, or just above one, if only some of its bits are kept
            bits, div, j = rng.choice([61, 63, 64, 64]), rng.choice([20, 20, 3]), rng.randrange(3)
            return (bytes([rng.choice([0, 1])]).rjust(32, b"\0") + (32 + j + rng.choice([1, div]) * 2 ** bits // rng.choice([1, 8])).to_bytes(32, "big") + b"\1".rjust(32, b"\0") + rng.choice([b"", rng.randbytes(40)]))[:rng.choice([96, 136])]
        if x < .12:      # 0 and 1 as base, exponent and modulus
            ops = [bytes(k - 1) + bytes([rng.randrange(2)]) for k in (rng.randrange(1, 40) for _ in range(3))]
            return b"".join(len(o).to_bytes(32, "big") for o in ops) + b"".join(ops)
        b = b"".join(k.to_bytes(32, "big") for k in n) + b"".join(ops)
        if x < .2:       # the data end within the head of a long exponent
            n, ops = [rng.choice([0, 1, 32, 64, 100]), rng.choice([33, 40, 64, 200]), rng.choice([32, 64, 100])], None
            k = 96 + n[0] + rng.randrange(34)
            return (b"".join(k.to_bytes(32, "big") for k in n) + (rng.randbytes(n[0]) + b"\1" + rng.randbytes(sum(n))))[:k]
        x = rng.random()
        return b if x < .75 else b[:rng.choice([0, 1, 32, 95, 96, 97, rng.randrange(len(b) + 1)])] if x < .9 else b + rng.randbytes(rng.choice([1, 32, 64]))
    if a in (6, 7):
        b = chain.bn1_out(P.get("bn1")) + (chain.bn1_out(P.get("bn1")) if a == 6 else word(rng, BNP))
        x = rng.random()
        if x < .2:
            b = noncanonical(rng, b, BNP, 32)
        elif x < .3:
            b = rng.choice([b[:64] + b[:64], bytes(len(b)), b + rng.randbytes(rng.randrange(1, 70)), b[:rng.randrange(len(b))], b"", b[:64], b[:96], b[:63]])
        elif x < .35 and a == 6:
            b = b[:64] + b[:32] + (-int.from_bytes(b[32:64], "big") % BNP).to_bytes(32, "big")
        return b
    if a == 8:
        b = b"".join(chain.bn1_out(P.get("bn1")) + chain.bn2_out(P.get("bn2")) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
        if rng.random() < .12:   # one pair that cannot contribute, or would not if it were looked at alone
            b += chain.bn1_out(rng.choice([INF, P.get("bn1")])) + chain.bn2_out(rng.choice([INF, rng.choice(P.base["bn2"][2])]))
        x = rng.random()
        return b if x < .7 or not b else noncanonical(rng, b, BNP, 32) if x < .9 else resize(rng, b, 192)
    if a == 9:
        b = rng.choice([0, 1, 2, 9, 10, 11, 12, 20, rng.randrange(200), LIMIT + 1, 2 ** 32 - 1]).to_bytes(4, "big") + rng.randbytes(208) + bytes([rng.randrange(2)])
        if rng.random() < .3:
            b = b[:4] + rng.choice([bytes(208), b"\xff" * 208, b[4:196] + bytes(16), b[4:196] + b"\xff" * 16]) + b[212:]
        x = rng.random()
        return b if x < .8 else b[:212] + bytes([rng.choice([2, 3, 128, 255])]) if x < .9 else resize(rng, b, 1)
    if a == 10:
        comm, point, claim, tail = rng.randbytes(48), rng.randbytes(32), rng.randbytes(32), rng.randbytes(16)
        b = b"\x01" + hashlib.sha256(comm).digest()[1:] + point + claim + comm + chain.kzg_proof(comm, point, claim, tail)
        x = rng.random()
        if x < .5:
            return b
        if x < .6:
            return rng.choice([b"\0", b"\2", hashlib.sha256(comm).digest()[:1]]) + b[1:]
        if x < .85:
            i = rng.choice([0, 1, 31, 32, 63, 64, 95, 96, 143, 144, 175, 176, 191, rng.randrange(192)])
            return b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]
        return resize(rng, b, 32)
    if a in (11, 13):
        k, out = ("b1", chain.b1_out) if a == 11 else ("b2", chain.b2_out)
        p = P.get(k)
        q = rng.choice([p, P.get(k), P.get(k), (p[0], P.base[k][0].sub((0, 0), p[1]))])
        b, unit = out(p) + out(q), 128
    elif a in (12, 14):
        k, out = ("b1", chain.b1_out) if a == 12 else ("b2", chain.b2_out)
        if rng.random() < .16:      # long ones: infinity and one point, or refused at their end
            n = rng.choice([126, 127, 128, 129, 200, 200])
            b = (out(INF) + bytes(32)) * (n - 1)
            if rng.random() < .5:
                b = b[:len(b) // 2 // (len(out(INF)) + 32) * (len(out(INF)) + 32)]
                return b + out(P.get(k)) + word(rng, BLSR) + (out(INF) + bytes(32)) * (n // 2)
            return b + rng.choice([b"\1" + out(INF)[1:] + bytes(32), b"\1" + out(INF)[1:] + bytes(32), bytes(rng.choice([1, 32, 128])), out(INF)])
        b, unit = b"".join(out(P.get(k)) + word(rng, BLSR) for _ in range(rng.choice([1, 1, 2, 3]))), 160 if a == 12 else 288
        if rng.random() < .1:    # the last one outside the subgroup
            return b + out(rng.choice(P.base[k][2])) + word(rng, BLSR)
    elif a == 15:
        b, unit = b"".join(chain.b1_out(P.get("b1")) + chain.b2_out(P.get("b2")) for _ in range(rng.choice([1, 1, 2, 3]))), 384
        if rng.random() < .15:   # a pair that does not contribute, with a point that may not be there
            t = [rng.choice([INF, rng.choice(P.base[k][2])]) for k in ("b1", "b2")]
            return b[:-384] + chain.b1_out(t[0]) + chain.b2_out(t[1])
    else:
        f = lambda: rng.choice([0, 1, BLSP - 1, rng.randrange(BLSP), rng.randrange(BLSP)]).to_bytes(64, "big")
        b, unit = b"".join(f() for _ in range(a - 15)), 64
    x = rng.random()
    if x < .7:
        return b
    if x < .85:
        i = rng.randrange(2) * 64 if a < 16 else rng.randrange(len(b) // 64) * 64
        if a in (13, 14, 15) and rng.random() < .6:
            i = rng.randrange(4) * 64
        return b[:i] + noncanonical(rng, b[i:i + 64], BLSP, 64) + b[i + 64:]
    return resize(rng, b, unit)


def judge(w, q, r):
    fork, a, supply, b = q
    case = {"fork": fork, "address": a, "gas": supply, "input": b[:3000], "length": len(b)}
    w.case((fork, a, supply, b[:400], len(b)))
    w.ev("calls")
    if a not in chain.table(fork):
        want = "none"
    else:
        g = min(chain.gas(fork, a, b), 2 ** 64 - 1)
        if supply < g:
            want = "err 0 "
            w.ev("calls_unpaid")
        else:
            o = chain.RUN[a](b)
            want = "err %d " % (supply - g) if o is None else "out %d %s" % (supply - g, o.hex())
            w.ev("refused_%02x" % a if o is None else "answered_%02x" % a)
    if r == want or want.startswith("err ") and r.startswith(want):
        if want == "none":
            w.ev("calls_absent")
        return
    kind = r.split()[0]
    key = kind if kind in ("panic", "dirty", "trace", "untraced", "unsteady", "differs", "alias") else "price" if r.split()[1:2] != want.split()[1:2] else "answer"
    w.violation(key, "precompile 0x%02x at fork %d, %d bytes, %d gas: %s, expected %s" % (a, fork, len(b), supply, r[:200], want[:200]), case)


def queries(w, n):
    rng = w.rng
    P = Points(rng)
    slow = 0
    for i in range(n):
        a = rng.choice(list(chain.RUN)) if rng.random() < .97 else rng.choice([0, 0x12, 0x14, 0x100, 0x113])
        if a in (14, 15, 12) and rng.random() < .4:
            a = rng.choice([1, 5, 6, 7, 8, 11, 13])
        fork = rng.randrange(7) if rng.random() < .5 or a not in chain.RUN else rng.choice([f for f in range(7) if a in chain.table(f)])
        if a not in chain.RUN:
            yield fork, a, 1000, rng.randbytes(20)
            continue
        b = make(rng, P, a)
        g = chain.gas(fork, a, b)
        supply = rng.choice([g, g, g + 1, g + rng.randrange(10 ** 6), max(0, g - 1), 0, LIMIT])
        if supply > LIMIT:
            supply = rng.choice([LIMIT, LIMIT - 1, g & 0xffff, g % 2 ** 32 % LIMIT, (g % 2 ** 64) % LIMIT])
        if a == 9 and g > 10 ** 4 and supply >= g:
            supply = g - 1
        yield fork, a, supply, b


def line(q):
    return "%d %x %d x%s" % (q[0], q[1], q[2], q[3].hex())


def calls(w, exe, san, n, part):
    c = gob.Precompile(exe, san)
    t = c.ask("table")[0]
    e = []
    for f in range(7):
        l = "+".join("%040x" % a for a in chain.table(f))
        e.append(l + "/" + l)
    w.ev("tables", 7)
    if t != " ".join(e):
        w.violation("table", "the tables of the forks (contracts/addresses) are %s, expected %s" % (t[:3000], " ".join(e)[:3000]), {"tables": t})
        return
    batch = []
    for q in queries(w, n):
        batch.append(q)
        if len(batch) < (1 if part % 2 == 0 else 6):
            continue
        w.now({"calls": [line(x)[:600] for x in batch]}, cpu=300)
        try:
            rs = c.ask(",".join(line(x) for x in batch), len(batch))
        except gob.Crash as x:
            s = str(x)
            w.violation("race" if "DATA RACE" in s else "crash", "the node's process dies: %s" % (s[s.find("DATA RACE"):] if "DATA RACE" in s else s)[:900], {"calls": [line(x)[:600] for x in batch]})
            return
        if len(batch) > 1:
            w.ev("batches")
        for x, r in zip(batch, rs):
            judge(w, x, r)
        batch = []
    w.sample({"call": line(q)[:300], "reply": rs[-1][:300]})


def plan(R):
    q = R.quick
    t = []
    for san in ("", "race"):
        e = gob.chain(san)
        for p in range(6 if not san else 2):
            t.append(("calls", dict(exe=e, san=san, n=(900 if not san else 200) if q else (20000 if not san else 5000), part=p if not san else 1)))
    return t


if __name__ == "__main__":
    pool.check("G04", "one call of a precompile", {"calls": calls}, plan,
               dict({"calls": 2000, "calls_unpaid": 100, "calls_absent": 50, "tables": 14, "batches": 100},
                    **{"answered_%02x" % a: 15 for a in chain.RUN}, **{"refused_%02x" % a: 5 for a in chain.RUN if a not in (1, 2, 3, 4, 5)}),
               ["geth/contracts.go is built unchanged on stand-ins for the packages it imports: curve groups, recovery and BLAKE2b's F are real there, the pairings, the maps to the curve, RIPEMD-160, Keccak-256, the KZG proof and the discount tables are recognisable substitutes; what those packages compute is not judged"])
