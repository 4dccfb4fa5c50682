"""C05: Epervier: what it signs it opens, recovery gives back the signer's key and nothing else, the hint is right."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib
from vh.ref import N, Q, BOUND


def verdict(sm, pk):
    h = ref.modq_decode(pk[1:], N, 16) if len(pk) == 1025 and pk[0] == 9 else None
    if h is None:
        return "bad-pk"
    p = ref.epervier_parts(sm)
    if p is None:
        return "encoding"
    nonce, msg, s1, s2, hint = p
    if ref.norm2(s1, s2) > BOUND:
        return "norm"
    rec = ref.epervier_recover(ref.hash_to_point(nonce + msg), s1, s2)
    if rec is None:
        return "singular"
    return "ok" if [int(v) for v in rec] == h else "other-key"


def judge(w, L, sm, pk, what):
    """The case, and in between earlier ones again, as they were or with parts exchanged."""
    exp = judge1(w, L, sm, pk, what)
    seen = w.__dict__.setdefault("seen", [])
    rng = w.rng
    if exp in ("ok", "other-key") or rng.random() < .2:
        seen.append((sm, pk))
        del seen[:-12]
    k = rng.randrange(8)
    if k == 0 and seen:
        judge1(w, L, *rng.choice(seen), "again")
    elif k == 1 and len(seen) > 1:
        judge1(w, L, rng.choice(seen)[0], rng.choice(seen)[1], "mixed")
    elif k == 2 and exp == "ok":
        a, b = bytearray(sm), bytearray(pk)
        x = rng.choice([a, a, b])
        x[rng.choice([len(x) - 1, len(x) - 3, 41, 42, len(x) - 1027, rng.randrange(2, len(x))]) % len(x)] ^= 1
        judge1(w, L, bytes(a), bytes(b), "next")
    return exp


def judge1(w, L, sm, pk, what):
    exp = verdict(sm, pk)
    case = {"what": what, "sm": sm, "pk": pk}
    w.now(case)
    r, m, clean = L.open("epervier", sm, pk)
    w.ev("verdicts")
    w.ev("expect_" + exp)
    w.case((what, exp, sm[:10], sm[-6:], len(sm)))
    if (r == 0) != (exp == "ok"):
        w.violation("verdict:" + what.split("/")[0], "%s: open returned %d, the predicate says %s" % (what, r, exp), case)
    elif r and not clean:
        w.violation("released", "%s: output written although refused" % what, case)
    elif r == 0 and m != sm[42:len(sm) - 2052]:
        w.violation("message", "%s: opened to other bytes" % what, case)
    return exp


def wire(nonce, msg, s1, s2, hint=1, hdr=(0x29, 0x29)):
    e = bytes([hdr[0]]) + ref.pack([int(v) % Q for v in s1], 16) + bytes([hdr[1]]) + ref.pack([int(v) % Q for v in s2], 16) \
        + (hint & 0xFFFF).to_bytes(2, "big")
    return len(e).to_bytes(2, "big") + nonce + msg + e


def genuine(w, san, nkeys, n, part):
    L = Lib("shake", san)
    rng = w.rng
    for _ in range(nkeys):
        L.seed(rng.getrandbits(63))
        r, pk, sk = L.keypair(True)
        b = L.__class__.frm(pk) if hasattr(L.__class__, "frm") else None
        import ctypes
        kb = (ctypes.c_ubyte * 1025).from_buffer_copy(pk)
        r = L.c.zknox_pk_epervier(kb)
        epk = bytes(kb)
        w.ev("key_conversions")
        if r or epk[0] != 9 or ref.modq_decode(epk[1:], N, 16) is None:
            w.violation("pk-convert", "zknox_pk_epervier returned %d" % r, {"pk": pk})
            continue
        bad = bytearray(pk)
        if rng.random() < .5:
            bad[0] = rng.choice([0, 8, 10, 255])
        else:
            j = rng.randrange(N)
            bad[1 + 2 * j:3 + 2 * j] = rng.choice([Q, Q + 1, 65535]).to_bytes(2, "big")
        kb = (ctypes.c_ubyte * 1025).from_buffer_copy(bytes(bad))
        if L.c.zknox_pk_epervier(kb) == 0:
            w.violation("pk-convert-bad", "an invalid public key is converted", {"pk": bytes(bad)})
        for i in range(n):
            msg = rng.randbytes(rng.choice([0, 1, 33, 96, 97, 3300, rng.randrange(6000)]))
            ss = rng.getrandbits(63)
            w.now({"sk": sk, "msg": msg, "ss": ss})
            L.seed(ss)
            r, sm = L.sign("epervier", msg, sk)
            if r or sm is None or len(sm) != 42 + len(msg) + 2052:
                w.violation("sign", "sign returned %d, %s bytes" % (r, sm and len(sm)), {"sk": sk, "msg": msg, "ss": ss})
                continue
            if judge(w, L, sm, epk, "genuine") != "ok":
                w.violation("own-signature", "own signature is not valid under the converted key", {"sk": sk, "sm": sm, "pk": epk})
                continue
            nonce, _, s1, s2, hint = ref.epervier_parts(sm)
            w.ev("hints")
            if hint != ref.hint_of(s2):
                w.violation("hint", "hint %d is not the inverse of the product of NTT(s2) (%s)" % (hint, ref.hint_of(s2)), {"sm": sm})
            if i == 0:
                w.sample({"mlen": len(msg), "hint": hint, "s1": s1[:6], "s2": s2[:6]})
            for _ in range(8):
                k = rng.randrange(11)
                sm2, pk2 = bytearray(sm), bytearray(epk)
                o = 42 + len(msg)
                if k == 0:
                    sm2[rng.randrange(2, len(sm) - 2)] ^= 1 << rng.randrange(8); what = "bitflip"
                elif k == 1:
                    v = rng.choice([0, 1, 2, 1024, 1025, 1026, 2049, 2050, 2051, 2053, 2054, 65535, len(sm) - 42, rng.randrange(2200)])
                    sm2[0:2] = v.to_bytes(2, "big"); what = "siglen"
                elif k == 2:
                    sm2 = sm2[:rng.choice([0, 1, 2, 41, 42, 43, len(sm) - 1, len(sm) - 2, len(sm) - 2052, rng.randrange(len(sm))])]; what = "cut"
                elif k == 3:
                    sm2[rng.choice([o, o + 1025])] = rng.choice([0x28, 0x2A, 0, 0x59, rng.randrange(256)]); what = "header"
                elif k == 4:
                    j = rng.randrange(N)
                    p = rng.choice([o + 1, o + 1026]) + 2 * j
                    v = (sm2[p] << 8) | sm2[p + 1]
                    c = s1[j] if p < o + 1025 else s2[j]
                    v2 = rng.choice([v + Q, v + 2 * Q, c & 0xFFFF, 65535, Q, 0x8000 | v]) & 0xFFFF
                    sm2[p:p + 2] = v2.to_bytes(2, "big"); what = "word"
                elif k == 5:
                    j = rng.randrange(N)
                    v = (pk2[1 + 2 * j] << 8) | pk2[2 + 2 * j]
                    v2 = rng.choice([v + Q, (v + 1) % Q, (v - 1) % Q, 65535]) & 0xFFFF
                    if rng.random() < .4:
                        j = rng.choice([0, 511])
                        v2 = (((pk2[1 + 2 * j] << 8) | pk2[2 + 2 * j]) + 1) % Q
                    pk2[1 + 2 * j:3 + 2 * j] = v2.to_bytes(2, "big"); what = "pk"
                elif k == 6:
                    sm2 = bytearray(wire(nonce, msg, s2, s1, hint)); what = "swapped"
                elif k == 7:
                    sm2 = bytearray(wire(nonce, msg, [-v for v in s1], [-v for v in s2], hint)); what = "negated"
                elif k == 8:
                    sm2 = bytearray(wire(nonce, msg, s1, [0] * N, hint)); what = "zero-s2"
                elif k == 9:
                    e = sm[o:] + bytes(rng.randrange(1, 4))
                    sm2 = bytearray(len(e).to_bytes(2, "big") + sm[2:o] + e); what = "extend"
                else:
                    pk2[0] = rng.choice([0, 8, 10, 255]); what = "pkheader"
                judge(w, L, bytes(sm2), bytes(pk2), what)


def crafted(w, san, n, part):
    """Short pairs of chosen norm: recovery must give exactly the key they determine, iff short and invertible."""
    L = Lib("shake", san)
    rng = w.rng
    for i in range(n):
        nonce, msg = rng.randbytes(40), rng.randbytes(rng.randrange(60))
        hm = ref.hash_to_point(nonce + msg)
        d = rng.choice([0, 0, 1, 1, -1, 5, -1000, 100000])
        s1, s2, h = ref.forge(rng, hm, target=BOUND + d)
        what = "norm/%+d" % d
        if rng.random() < .15:
            # make s2 singular: force one transform coefficient to zero
            V, _ = ref._mats(9)
            j = rng.randrange(N)
            t = int(ref.ntt(s2)[j])
            # adding c*x^k changes coefficient j by c*psi^..; search a small fix over pairs
            fixed = False
            for _ in range(400):
                k1, k2 = rng.randrange(N), rng.randrange(N)
                a1, a2 = int(V[j][k1]), int(V[j][k2])
                c1 = rng.randrange(-60, 61)
                c2 = (-(t + c1 * a1) * pow(a2, -1, Q)) % Q
                c2 = c2 - Q if c2 > Q // 2 else c2
                if abs(c2) < 300 and k1 != k2:
                    s2[k1] += c1
                    s2[k2] += c2
                    fixed = True
                    break
            if fixed:
                what = "singular"
                scale = 0.9
                s1 = [int(v * .5) for v in s1]
                h = [rng.randrange(Q) for _ in range(N)]
                w.ev("singular_made")
                r = L.Z("is_invertible")(L.i16(s2), 9, L.tmp(2048))
                cz = L.Z("count_nttzero")(L.i16(s2), 9, L.tmp(2048))
                if r or cz != int((ref.ntt(s2) == 0).sum()):
                    w.violation("invertible", "a singular s2 counts as invertible (count %d)" % cz, {"s2": s2})
        pk = b"\x09" + ref.pack(ref.ntt(h), 16)
        exp = judge(w, L, wire(nonce, msg, s1, s2, ref.hint_of(s2) or 0), pk, what)
        w.ev("crafted_" + exp)
        # the internal recovery in coefficient form agrees for the same vectors
        hb = L.u16([0] * N)
        r = L.Z("verify_recover")(hb, L.u16(hm), L.i16(s1), L.i16(s2), 9, L.tmp(1024))
        rec = ref.epervier_recover(hm, s1, s2)
        if bool(r) != (rec is not None):
            w.violation("recover", "coefficient recovery says %d" % r, {"s1": s1, "s2": s2})
        elif r and [int(v) for v in ref.intt(rec)] != list(hb):
            w.violation("recover-value", "coefficient recovery gives another key", {"s1": s1, "s2": s2})
        if rec is not None:
            w.ev("hints")
            if L.Z("hint_epervier")(L.i16(s2), 9) != ref.hint_of(s2):
                w.violation("hint", "wrong hint", {"s2": s2})


def singular(w, lo, hi, part):
    """For each transform slot, short pairs whose s2 vanishes exactly there: no key makes them valid, whatever it has in that slot."""
    L = Lib("shake", "")
    rng = w.rng
    V, _ = ref._mats(9)
    for j in range(lo, hi):
        nonce, msg = rng.randbytes(40), rng.randbytes(rng.randrange(60))
        hm = ref.hash_to_point(nonce + msg)
        while True:
            s1 = [int(rng.gauss(0, 120)) for _ in range(N)]
            s2 = [int(rng.gauss(0, 120)) for _ in range(N)]
            t = int(ref.ntt(s2)[j])
            k1, k2 = rng.randrange(N), rng.randrange(N)
            c1 = rng.randrange(-60, 61)
            c2 = (-(t + c1 * int(V[j][k1])) * pow(int(V[j][k2]), -1, Q)) % Q
            c2 = c2 - Q if c2 > Q // 2 else c2
            if abs(c2) > 1500 or k1 == k2:
                continue
            s2[k1] += c1
            s2[k2] += c2
            t = ref.ntt(s2)
            if [i for i in range(N) if t[i] == 0] == [j] and ref.norm2(s1, s2) <= BOUND:
                break
        d = ref.ntt([(a - b) % Q for a, b in zip(hm, s1)])
        h = [int(a) * pow(int(b), -1, Q) % Q if b else 0 for a, b in zip(d, t)]
        for v in (0, int(d[j]), rng.randrange(Q)):
            h[j] = v
            exp = judge(w, L, wire(nonce, msg, s1, s2, 0), b"\x09" + ref.pack(h, 16), "slot")
            w.ev("singular_slots")
            if exp == "ok":
                raise AssertionError("the oracle takes a singular pair")
        if L.Z("is_invertible")(L.i16(s2), 9, L.tmp(2048)) or L.Z("count_nttzero")(L.i16(s2), 9, L.tmp(2048)) != 1:
            w.violation("invertible", "s2 vanishing in slot %d counts as invertible" % j, {"s2": s2})
        if L.Z("verify_recover")(L.u16([0] * N), L.u16(hm), L.i16(s1), L.i16(s2), 9, L.tmp(1024)):
            w.violation("recover", "coefficient recovery takes an s2 that vanishes in slot %d" % j, {"s1": s1, "s2": s2})


def plan(R):
    build.prepare("shake", "shake/asan")
    q = R.quick
    t = [("genuine", dict(san="", nkeys=3 if q else 40, n=40 if q else 100, part=p)) for p in range(4)]
    t += [("crafted", dict(san="", n=300 if q else 8000, part=p)) for p in range(3)]
    t += [("singular", dict(lo=64 * p, hi=64 * p + 64, part=k)) for p in range(8) for k in range(1 if q else 8)]
    t.append(("genuine", dict(san="asan", nkeys=1 if q else 20, n=25 if q else 60, part=9), "asan"))
    return t


if __name__ == "__main__":
    pool.check("C05", "an Epervier (signed message, key) pair by mutation class and expected verdict",
               {"genuine": genuine, "crafted": crafted, "singular": singular}, plan,
               {"verdicts": 2000, "expect_ok": 500, "expect_norm": 100, "expect_other-key": 100, "expect_encoding": 300,
                "hints": 400, "key_conversions": 8, "crafted_ok": 100, "singular_slots": 1500})
