"""P05: the Python encodings are bijections between documented values and canonical byte strings."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, pykeys, pyref, pyspec, ref
from vh.ref import Q

BITS = {2: 8, 4: 8, 8: 8, 16: 8, 32: 8, 64: 7, 128: 7, 256: 6, 512: 6, 1024: 5}  # of f and g; F always 8


def told(w, f, want, what, case, *a, errors=(ValueError,)):
    """want None: must be refused (False or one of errors)"""
    w.now(case)
    v, e = pyref.call(f, *a)
    w.ev("refused" if want is None else "exact")
    if want is None:
        if not (v is False or (v is None and isinstance(e, errors))):
            w.violation(what, "%s: %r %r, should be refused" % (what, str(v)[:200], e), case)
        return None
    if e is not None or (bytes(v) if isinstance(want, bytes) else v) != want:
        w.violation(what, "%s: %s %r, should be %s" % (what, str(v)[:300], e, str(want)[:300]), case)
        return None
    return v


def values(r, n):
    k = r.randrange(7)
    if k == 0:
        return [r.choice([0, 0, 0, 1, -1]) for _ in range(n)]
    if k == 1:
        return [r.choice([0, 127, 128, -127, -128, 129, 255, 256, -256, 2047, -2047, 2048, 1]) for _ in range(n)]
    if k == 2:
        v = [int(r.gauss(0, 165)) for _ in range(n)]
        v[r.randrange(n)] = r.choice([1, -1]) * r.choice([4095, 4096, 6144, 12288, 5000])
        return v
    return [int(r.gauss(0, r.choice([2, 40, 165, 300]))) for _ in range(n)]


def comp(w, count):
    from encoding import compress, decompress
    r = w.rng
    for i in range(count):
        n = r.choice(pyspec.DEGREES + [1, 3, 512, 1024])
        v = values(r, n)
        b = pyspec.comp(v)
        need = (len(b) + 7) // 8
        sl = need + r.choice([0, 0, 1, -1, 2, r.randrange(50), -r.randrange(need + 1)])
        case = {"n": n, "v": v if n <= 64 else v[:64], "slen": sl}
        w.ev("compress")
        w.case((n, b, sl))
        enc = told(w, compress, None if need > sl else pyspec.bits2bytes(b, sl), "compress", case, v, sl)
        if enc is None:
            sl = need
            enc = pyspec.bits2bytes(b)
        if sl:
            told(w, decompress, v, "decompress", case, enc, sl, n)
        # one string is read in one way, and every value has one string
        for _ in range(6):
            e = bytearray(enc)
            k = r.randrange(9)
            m, s = n, sl
            if k == 0 and e:
                e[r.randrange(len(e))] ^= 1 << r.randrange(8)
            elif k == 1:
                e = e[:r.randrange(len(e) + 1)]
            elif k == 2:
                e += bytes(r.choice([1, 2]))
            elif k == 3:
                e += bytes([r.randrange(256)])
                s += r.choice([0, 1])
            elif k == 4 and len(b) % 8:
                e[need - 1] |= 1 << r.randrange(-len(b) % 8)
            elif k == 5:
                m = max(1, n + r.choice([-1, 1, n, -n // 2]))
            elif k == 6:
                e = bytearray(r.randbytes(len(e)))
            elif k == 7:
                s = r.randrange(sl + 2)
            else:
                z = [j for j in range(n) if v[j] == 0]
                if not z:
                    continue
                p = sum(9 + (abs(x) >> 7) for x in v[:r.choice(z)])
                e[p >> 3] |= 128 >> (p & 7)
            w.ev("decompress")
            w.case((m, bytes(e), s))
            told(w, decompress, pyspec.decomp(bytes(e), s, m), "decompress", {"n": m, "x": bytes(e), "slen": s}, bytes(e), s, m)


def exhaust(w):
    """Every string of up to two bytes, for one or two coefficients."""
    from encoding import decompress
    for ln in range(3):
        for x in range(256 ** ln):
            e = x.to_bytes(ln, "big")
            for n in (1, 2):
                told(w, decompress, pyspec.decomp(e, 2, n), "decompress", {"n": n, "x": e}, e, 2, n)
                w.case((n, e))
    w.ev("exhausted")


def fixed(w, count):
    import falcon_codec as fc
    from encoding import decode16
    from common import falcon_compact
    r = w.rng
    for i in range(count):
        n = r.choice(pyspec.DEGREES)
        v = [r.choice([0, 1, Q - 1, 8191, 8192]) if r.random() < .2 else r.randrange(Q) for _ in range(n)]
        enc = ref.pack(v, 14)
        told(w, fc.modq_encode, enc, "modq_encode", {"v": v}, v, n)
        told(w, fc.modq_decode, v, "modq_decode", {"x": enc, "n": n}, enc, n)
        w.case((14, enc))
        for _ in range(4):
            e, bad = bytearray(enc), list(v)
            bad[r.randrange(n)] = r.choice([Q, Q + 1, 16383, 16384, -1, -Q])
            told(w, fc.modq_encode, None, "modq_encode", {"v": bad}, bad, n)
            k = r.randrange(4)
            if k == 0:
                e[r.randrange(len(e))] ^= 1 << r.randrange(8)
            elif k == 1:
                e = e[:r.randrange(len(e))]
            elif k == 2:
                b2 = list(v)
                b2[r.choice([0, n - 1, r.randrange(n)])] = r.choice([Q, Q + 1, 16383, Q - 1, r.randrange(Q, 16384)])
                e = bytearray(ref.pack(b2, 14))
            elif -14 * n % 8:
                e[-1] |= 1 << r.randrange(-14 * n % 8)
            w.case((14, n, bytes(e)))
            told(w, fc.modq_decode, ref.modq_decode(bytes(e), n), "modq_decode", {"x": bytes(e), "n": n}, bytes(e), n)
        bits = r.choice([BITS[n], 8, 8, r.randrange(2, 9)])
        m = (1 << (bits - 1)) - 1
        v = [r.choice([0, m, -m, 1, -1]) if r.random() < .2 else r.randint(-m, m) for _ in range(n)]
        enc = ref.pack(v, bits)
        told(w, fc.trim_i8_encode, enc, "trim_i8_encode", {"v": v, "bits": bits}, v, n, bits)
        told(w, fc.trim_i8_decode, v, "trim_i8_decode", {"x": enc, "bits": bits, "n": n}, enc, n, bits)
        w.case((bits, enc))
        for _ in range(4):
            e, bad = bytearray(enc), list(v)
            j = r.randrange(n)
            bad[j] = r.choice([m + 1, -m - 1, 2 * m, 1000, -1000])
            told(w, fc.trim_i8_encode, None, "trim_i8_encode", {"v": bad, "bits": bits}, bad, n, bits)
            k = r.randrange(4)
            if k == 0:
                e[r.randrange(len(e))] ^= 1 << r.randrange(8)
            elif k == 1:
                e = e[:r.randrange(len(e))]
            elif k == 2:
                b2 = list(v)
                b2[r.choice([0, n - 1, j])] = m + 1
                e = bytearray(ref.pack(b2, bits))
            elif -bits * n % 8:
                e[-1] |= 1 << r.randrange(-bits * n % 8)
            w.case((bits, n, bytes(e)))
            told(w, fc.trim_i8_decode, ref.trim_decode(bytes(e), n, bits), "trim_i8_decode", {"x": bytes(e), "bits": bits, "n": n}, bytes(e), n, bits)
        w.ev("fixed-width")
        v = [r.choice([0, 65535, r.randrange(65536), r.randrange(Q)]) for _ in range(16 * r.choice([1, 2, 32, 64]))]
        packed = [sum(x << (16 * j) for j, x in enumerate(v[k:k + 16])) for k in range(0, len(v), 16)]
        told(w, falcon_compact, packed, "falcon_compact", {"v": v}, v)
        told(w, falcon_compact, None, "falcon_compact", {"v": v}, v + [1], errors=(AssertionError, ValueError))
        bad = list(v)
        bad[r.randrange(len(v))] = r.choice([65536, 1 << 20])
        told(w, falcon_compact, None, "falcon_compact", {"v": bad}, bad, errors=(AssertionError, ValueError))
        e = b"".join(x.to_bytes(2, "big") for x in v)
        told(w, decode16, v, "decode16", {"x": e}, e, len(v))
        told(w, decode16, None, "decode16", {"x": e + b"1"}, e + b"1", len(v))


def pubkeys(w, count):
    from falcon import PublicKey
    from scripts.generate_kat_rsp import encode_public_key
    r = w.rng

    def h_of(b):
        P = PublicKey.from_bytes(b)
        if P.n != len(P.pk):
            raise AssertionError("n is %d" % P.n)
        return [int(v) for v in P.pk]

    for i in range(count):
        n = r.choice([512, 512, 1024])
        h = [r.choice([0, Q - 1, 1]) if r.random() < .1 else r.randrange(Q) for _ in range(n)]
        pk = bytes([n.bit_length() - 1]) + ref.pack(h, 14)
        if n == 512:
            told(w, encode_public_key, pk, "encode_public_key", {"h": h}, h, n)
        told(w, h_of, h, "from_bytes", {"pk": pk}, pk)
        w.ev("public-keys")
        w.case(pk)
        for k in range(8):
            b = bytearray(pk)
            if k == 0:
                b = b[:r.choice([0, 1, len(b) - 1, r.randrange(len(b))])]
            elif k == 1:
                b += r.randbytes(r.choice([1, 2, 896]))
            elif k == 2:
                b[0] = r.choice([0, 8, 9, 10, 11, 0x29, 255])
            elif k == 3:
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            elif k == 4:
                b2 = list(h)
                b2[r.choice([0, n - 1, r.randrange(n)])] = r.choice([Q, 16383, Q + 1, Q - 1])
                b[1:] = ref.pack(b2, 14)
            elif k == 5:
                b = bytearray([19 - b[0]]) + b[1:] + (bytes(896) if n == 512 else b"")
            elif k == 6:
                b = bytearray([b[0]]) + bytes(896 if n == 1024 else 1792)
            else:
                b[1:] = r.randbytes(len(b) - 1)
            want = None
            if len(b) == 897 and b[0] == 9:
                want = ref.modq_decode(bytes(b[1:]), 512)
            elif len(b) == 1793 and b[0] == 10:
                want = ref.modq_decode(bytes(b[1:]), 1024)
            w.case(bytes(b))
            told(w, h_of, want, "from_bytes", {"pk": bytes(b)}, bytes(b))


def seckeys(w, count):
    import falcon_codec as fc
    from scripts.generate_kat_rsp import decode_secret_key_nist, encode_secret_key
    r = w.rng

    def dec(x, n):
        return [[int(v) for v in p] for p in decode_secret_key_nist(x.hex(), n)]

    def G_of(f, g, F, n):
        return [int(v) for v in fc.complete_private(f, g, F, n)]

    for i in range(count):
        n = r.choice([512, 512, 512, 1024, 16, 64, 128, 256])
        for _ in range(30):
            key = pykeys.polys(n, r)
            f, g, F, G = key
            body = [ref.trim_encode(f, BITS[n]), ref.trim_encode(g, BITS[n]), ref.trim_encode(F, 8)]
            if None not in body:
                break
        else:
            w.ev("key-does-not-fit")
            continue
        w.ev("secret-keys")
        w.case(repr(key))
        sk = bytes([0x50 + n.bit_length() - 1]) + b"".join(body)
        told(w, dec, key, "secret key", {"sk": sk, "n": n}, sk, n)
        told(w, G_of, G, "complete_private", {"sk": sk, "n": n}, f, g, F, n)
        # any triple with f invertible: the one solution modulo q, each value the representative nearest to 0
        while True:
            f2 = r.choice([list(f), [r.randrange(-128, 128) for _ in range(n)], [r.randrange(Q) for _ in range(n)]])
            fi = ref.invq(np.asarray(f2) % Q)
            if fi is not None:
                break
        g2, F2 = ([r.randrange(-k, k + 1) for _ in range(n)] for k in (127, r.choice([127, 6144])))
        if r.random() < .5:
            f2, g2 = [1] + [0] * (n - 1), [r.choice([-1, 1])] + [0] * (n - 1)
            F2 = [r.choice([6144, -6144, 6143, -6143, 0, 1, 6145, r.randrange(-6144, 6145)]) for _ in range(n)]
            fi = ref.invq(np.asarray(f2))
        want = ref.mulq(ref.mulq(np.asarray(g2) % Q, np.asarray(F2) % Q), fi)
        want = [int(v) - Q if v > 6144 else int(v) for v in want]
        w.ev("completed")
        told(w, G_of, want, "complete_private", {"f": f2, "g": g2, "F": F2, "n": n}, f2, g2, F2, n)
        flat = b"".join((v & 0xFFFF).to_bytes(2, "big") for p in key for v in p)
        told(w, encode_secret_key, flat, "encode_secret_key", {"sk": sk}, f, g, F, G, n)
        wide = [[r.choice([0, -1, -127, -128, -129, -255, -256, -257, 127, 128, 255, 256, -32768, 32767, r.randrange(-32768, 32768)]) for _ in range(n)] for _ in range(4)]
        flat = b"".join((v & 0xFFFF).to_bytes(2, "big") for p in wide for v in p)
        told(w, encode_secret_key, flat, "encode_secret_key", {"polys": wide}, *wide, n)
        for _ in range(4):
            b = bytearray(sk)
            k = r.randrange(4)
            if k == 0:
                b[0] = r.choice([0x50, 0x51, 0x58, 0x59, 0x5a, 0x5b, 9, 255])
                if b[0] == sk[0]:
                    continue
            elif k == 1:
                b = b[:r.randrange(1, len(b))]
            else:
                bits = BITS[n]
                j, p = r.randrange(n), r.randrange(3)
                x = [list(f), list(g), list(F)]
                x[p][j] = -(1 << ((bits if p < 2 else 8) - 1))
                b[1:] = ref.pack(x[0], bits) + ref.pack(x[1], bits) + ref.pack(x[2], 8)
            w.case(bytes(b))
            told(w, dec, None, "secret key", {"sk": bytes(b), "n": n}, bytes(b), n)


def plan(R):
    k = 5 if R.quick else 100
    t = [("exhaust", {})]
    for p in range(4):
        t.append(("comp", dict(count=500 * k, part=p)))
    for p in range(2):
        t.append(("fixed", dict(count=200 * k, part=p)))
    t += [("pubkeys", dict(count=60 * k)), ("seckeys", dict(count=40 * k))]
    return t


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("P05", "one encoding or decoding compared with the model; distinct by (format, input)",
               {f.__name__: strip(f) for f in (comp, exhaust, fixed, pubkeys, seckeys)}, plan,
               {"compress": 1500, "decompress": 9000, "exhausted": 1, "fixed-width": 300, "public-keys": 50, "secret-keys": 30, "completed": 30, "refused": 5000, "exact": 5000},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)"])
