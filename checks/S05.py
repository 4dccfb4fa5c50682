"""S05: the contracts' decoders read each value from one string only and refuse everything else."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import pool, ref, solx
from vh.ref import Q

N = 512
E = "src/ZKNOX_falcon_encodings.sol"
U = "src/ZKNOX_falcon_utils.sol"
MAX = 665  # of a compressed polynomial, as max_in_len has it


def told(w, what, want, got, case):
    ok, v = got
    w.ev(what + (" refused" if want is None else " read"))
    w.case((what, repr(case)))
    if want is None and ok:
        w.violation(what + "-accepts", "%s reads what it should refuse: %s" % (what, case["why"]), case)
    elif want is not None and (not ok or (list(v) if isinstance(v, (list, tuple)) else v) != want):
        w.violation(what, "%s %s: %s" % (what, "reads other values" if ok else "refuses (%s)" % solx.why(v), case["why"]), case)


def coeffs(r):
    k = r.randrange(6)
    sc = r.choice([60, 165, 165, 200])
    while True:
        v = [int(r.gauss(0, sc)) for _ in range(N)]
        if k == 0:
            for j in r.sample(range(N), 4):
                v[j] = r.choice([2047, -2047, 128, -128, 127, -127, 1920, -1921])
        if k == 1:
            v[r.choice([0, N - 1])] = 0
        if k == 2:
            v = [r.choice([0, 1, -1]) for _ in range(N)]
        e = ref.comp_encode(v)
        if len(e) <= 620 + 45 * (k == 3):
            return v, e
        sc *= .9


def model_sig(b):
    """what a compressed polynomial padded with zeros to the end of the buffer means"""
    x = ref.comp_decode(b, N)
    if x is None or any(b[x[1]:]) or x[1] > MAX:
        return None
    return [v % Q for v in x[0]]


def damage(r, v, e):
    """(why, bytes), some still correct"""
    e = bytearray(e)
    k = r.randrange(13)
    if k == 0:
        return "as encoded", bytes(e)
    if k == 1:
        return "padded with zeros", bytes(e) + bytes(r.choice([1, 2, 31, 32, 33, 100]))
    if k == 2:
        return "cut", bytes(e[:r.choice([len(e) - 1, 0, 1, len(e) - 2, r.randrange(len(e))])])
    if k == 3:
        p = r.choice([0, r.randrange(40)])
        return "followed by something", bytes(e) + bytes(p) + bytes([r.randrange(1, 256)]) + bytes(r.choice([0, 0, 5]))
    bits = sum(9 + (abs(x) >> 7) for x in v)
    if k in (4, 5):
        if bits % 8:
            e[-1] |= 1 << r.randrange(-bits % 8)
            return "a bit after the last coefficient", bytes(e)
        return "as encoded", bytes(e)
    if k in (6, 7):
        v = list(v)
        j = r.choice([0, N - 1, r.randrange(N)])
        v[j] = 0
        e = bytearray(ref.comp_encode(v))
        p = sum(9 + (abs(x) >> 7) for x in v[:j])
        e[p >> 3] |= 128 >> (p & 7)
        return "coefficient %d is -0" % j, bytes(e)
    if k in (8, 9):
        v = list(v)
        j = r.choice([0, N - 1, r.randrange(N)])
        v[j] = r.choice([2048, -2048, 2049, 2175, 2176, 4095, -5000, 12288])
        if r.random() < .3:
            for i in r.sample(range(N), 200):
                v[i] = 0
        return "coefficient %d is %d" % (j, v[j]), ref.comp_encode(v, cap=1 << 20)
    if k == 10:
        e[r.randrange(len(e))] ^= 1 << r.randrange(8)
        return "a bit flipped", bytes(e)
    if k == 11:
        return "random", r.randbytes(r.choice([625, 640, 700]))
    return "no stop bit", bytes(e[:r.randrange(len(e))]) + bytes(300)


def sig(w, count):
    r = w.rng
    for i in range(count):
        v, e = coeffs(r)
        for _ in range(5):
            why, b = damage(r, v, e)
            off = r.choice([0, 0, 0, 1, 31, 32, 43, 76])
            buf = r.randbytes(off) + b
            # what follows the buffer in memory must not matter
            case = {"why": why, "buffer": buf, "offset": off}
            w.now(case)
            told(w, "_decompress_sig", model_sig(b), solx.free(E, "_decompress_sig", buf, off), case)
        if i % 10 == 0:
            for off in (len(buf), len(buf) + 1, len(buf) + 1000, 1 << 32, 1 << 64):
                case = {"why": "offset %d of %d bytes" % (off, len(buf)), "buffer": buf, "offset": off}
                w.now(case)
                told(w, "_decompress_sig", None, solx.free(E, "_decompress_sig", buf, off), case)


def pub(w, count):
    r = w.rng
    for i in range(count):
        h = [r.choice([0, Q - 1, 8191, 8192]) if r.random() < .1 else r.randrange(Q) for _ in range(N)]
        e = bytearray(ref.pack(h, 14))
        off = r.choice([0, 1, 1, 1, 33, 100])
        k = i % 6
        why, want = "as encoded", h
        if k == 1:
            x = list(h)
            j = r.choice([0, N - 1, r.randrange(N)])
            x[j] = r.choice([Q, Q + 1, 16383, r.randrange(Q, 16384)])
            e, why, want = bytearray(ref.pack(x, 14)), "coefficient %d is %d" % (j, x[j]), None
        elif k == 2:
            e, why, want = e[:r.choice([895, 0, 894, r.randrange(896)])], "cut", None
        elif k == 3:
            e[r.randrange(896)] ^= 1 << r.randrange(8)
            why, want = "a bit flipped", ref.modq_decode(bytes(e), N)
        elif k == 4:
            e = bytearray(r.randbytes(896))
            why, want = "random", ref.modq_decode(bytes(e), N)
        buf = r.randbytes(off) + bytes(e)
        case = {"why": why, "buffer": buf, "offset": off}
        w.now(case)
        told(w, "_ZKNOX_NTT_Decompress", want, solx.free(U, "_ZKNOX_NTT_Decompress", buf, off), case)


def kat(w, count):
    r = w.rng
    for i in range(count):
        h = [r.randrange(Q) for _ in range(N)]
        v, e = coeffs(r)
        salt, msg = r.randbytes(40), r.randbytes(r.choice([0, 1, 33, 32, 31, 66, 33 * r.randrange(1, 20)]))
        why = "as encoded"
        pk = bytearray(b"\x09" + ref.pack(h, 14))
        body, mlen, slen = bytearray(b"\x29" + e), len(msg), None
        k = i % 12
        if k == 1:
            pk[0] = r.choice([0, 8, 10, 0x29, 0x19, 255])
            why = "header of the key"
        elif k == 2:
            pk = pk[:r.choice([896, 1, 0, r.randrange(897)])] if r.random() < .5 else pk + bytes([r.randrange(256)])
            why = "key of %d bytes" % len(pk)
        elif k == 3:
            body[0] = r.choice([0, 9, 0x28, 0x2a, 0x39, 0x59, 255])
            why = "header of the signature"
        elif k == 4:
            slen = len(body) + r.choice([1, -1, 256, -256, 100, -len(body)])
            why = "slen %d, not %d" % (slen, len(body))
        elif k == 5:
            mlen += r.choice([1, -1, 5, 1000, -len(msg)])
            why = "mlen %d, not %d" % (mlen, len(msg))
        elif k == 6:
            body += bytes([r.choice([0, 0, 1, 255])]) * r.choice([1, 2, 50])
            why = "signature followed by %d" % body[-1]
        elif k in (7, 8, 9):
            why, b = damage(r, v, e)
            body = bytearray(b"\x29" + b)
        elif k == 10:
            body = body[:r.choice([0, 1, 2])]
            why = "signature of %d bytes" % len(body)
        sm = bytearray((len(body) if slen is None else max(slen, 0)).to_bytes(2, "big") + salt + msg + body)
        if k == 11:
            sm = sm[:r.choice([0, 1, 2, 41, 42, 42 + len(msg), r.randrange(len(sm))])]
            why = "cut to %d" % len(sm)
        case = {"why": why, "pk": bytes(pk), "sm": bytes(sm), "mlen": mlen}
        w.now(case)
        want = model_kat(bytes(pk), bytes(sm), mlen)
        got = solx.free(E, "decompress_KAT", bytes(pk), bytes(sm), mlen) if mlen >= 0 else (False, b"")
        told(w, "decompress_KAT", want, got, case)


def model_kat(pk, sm, mlen):
    if len(pk) != 897 or pk[0] != 9 or len(sm) < 43 or mlen < 0:
        return None
    h = ref.modq_decode(pk[1:], N)
    sl = sm[0] << 8 | sm[1]
    if h is None or len(sm) != 42 + mlen + sl or sl < 1 or sm[42 + mlen] != 0x29:
        return None
    x = ref.comp_decode(sm[43 + mlen:], N)
    if x is None or x[1] != sl - 1 or x[1] > MAX:
        return None
    return [h, [v % Q for v in x[0]], sm[2:42], sm[42:42 + mlen]]


def plan(R):
    k = 1 if R.quick else 25
    t = [("sig", dict(count=300 * k, part=p)) for p in range(3)]
    t += [("kat", dict(count=500 * k, part=p)) for p in range(3)]
    return t + [("pub", dict(count=600 * k))]


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("S05", "one decoding compared with the model; distinct by its input", {f.__name__: strip(f) for f in (sig, pub, kat)}, plan,
               {"_decompress_sig refused": 1000, "_decompress_sig read": 300, "decompress_KAT refused": 600, "decompress_KAT read": 100,
                "_ZKNOX_NTT_Decompress refused": 150, "_ZKNOX_NTT_Decompress read": 200},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled"])
