"""C06: every codec is a bijection between its value range and one canonical byte string, within its buffers."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib, frm, cbuf
from vh.ref import Q
import ctypes as C


class Codec:
    """One format: how the code encodes/decodes it and what the format is."""

    def __init__(self, name, L, logn, bits):
        self.name, self.L, self.logn, self.bits, self.n = name, L, logn, bits, 1 << logn
        self.T = {"modq": C.c_uint16, "modq16": C.c_uint16, "trim8": C.c_int8, "trim16": C.c_int16, "comp": C.c_int16,
                  "comp16": C.c_int16}[name]
        self.m = (1 << (bits - 1)) - 1 if bits else 0

    def arr(self, v):
        return (self.T * len(v))(*v)

    def rng_ok(self, v):
        return {"modq": 0 <= v < Q, "modq16": 0 <= v < Q, "trim8": abs(v) <= self.m, "trim16": abs(v) <= self.m,
                "comp": abs(v) <= 2047, "comp16": abs(v) < Q}[self.name]

    def spec_encode(self, x):
        if not all(self.rng_ok(v) for v in x):
            return None
        return {"modq": lambda: ref.pack(x, 14), "modq16": lambda: ref.pack(x, 16),
                "trim8": lambda: ref.pack(x, self.bits), "trim16": lambda: ref.pack(x, self.bits),
                "comp": lambda: ref.comp_encode(x), "comp16": lambda: ref.pack([v % Q for v in x], 16)}[self.name]()

    def spec_decode(self, data):
        """(values, used) or None"""
        n = self.n
        if self.name == "comp":
            return ref.comp_decode(data, n)
        if self.name in ("modq", "modq16", "comp16"):
            b = 14 if self.name == "modq" else 16
            r = ref.modq_decode(data, n, b)
            if r is not None and self.name == "comp16":
                r = [v - Q if v > Q // 2 else v for v in r]
        else:
            b = self.bits
            r = ref.trim_decode(data, n, b)
        return None if r is None else (r, (n * b + 7) // 8)

    def encode(self, x, cap, query=False):
        a = self.arr(x)
        o = None if query else cbuf(cap + 8, 0xEE) if self.L.san != "asan" else cbuf(cap, 0xEE)
        f = self.L.Z({"modq": "modq_encode", "modq16": "modq_encode16", "trim8": "trim_i8_encode", "trim16": "trim_i16_encode",
                      "comp": "comp_encode", "comp16": "comp_encode16"}[self.name])
        r = f(o, cap, a, self.logn, self.bits) if self.bits else f(o, cap, a, self.logn)
        return r, (None if query else bytes(o))

    def decode(self, data):
        o = self.arr([0] * self.n)
        d = frm(data)
        f = self.L.Z({"modq": "modq_decode", "modq16": "modq_decode16", "trim8": "trim_i8_decode", "trim16": "trim_i16_decode",
                      "comp": "comp_decode", "comp16": "comp_decode16"}[self.name])
        r = f(o, self.logn, self.bits, d, len(data)) if self.bits else f(o, self.logn, d, len(data))
        return r, list(o)


def value(rng, c):
    m = {"modq": Q - 1, "modq16": Q - 1, "trim8": c.m, "trim16": c.m, "comp": 2047, "comp16": Q - 1}[c.name]
    lo = 0 if c.name.startswith("modq") else -m
    k = rng.random()
    if k < .3:
        v = rng.choice([0, 1, -1, m, m - 1, -m, 127, 128, 129, 255, 256, -127, -128, 2046, 2047, 6143, 6144, 6145, -6144, -6145, 1023, 1024])
        return v if lo <= v <= m else lo
    if k < .6 and c.name == "comp":
        return max(lo, min(m, int(rng.gauss(0, 165))))
    return rng.randint(lo, m)


def bad_value(rng, c):
    lo, hi = {C.c_uint16: (0, 65535), C.c_int16: (-32768, 32767), C.c_int8: (-128, 127)}[c.T]
    for _ in range(20):
        v = rng.choice([Q, Q + 1, c.m + 1, -c.m - 1, 2048, -2048, hi, lo, -Q, rng.randint(lo, hi)])
        if lo <= v <= hi and not c.rng_ok(v):
            return v
    return None


def one(w, c, data, what):
    case = {"codec": c.name, "logn": c.logn, "bits": c.bits, "what": what, "in": data}
    w.now(case)
    r, out = c.decode(data)
    e = c.spec_decode(data)
    w.ev("decodes")
    w.ev("decode_ok" if e else "decode_no")
    w.case((c.name, c.logn, c.bits, what, data[:24], len(data)))
    if (e[1] if e else 0) != r:
        w.violation("decode:%s" % c.name, "%s(logn %d, bits %d) %s: consumed %d, format says %s" % (
            c.name, c.logn, c.bits, what, r, e and e[1]), case)
    elif e and out != e[0]:
        w.violation("decode-values:%s" % c.name, "%s: decoded other values (first difference %s)" % (
            c.name, next((i, a, b) for i, (a, b) in enumerate(zip(out, e[0])) if a != b)), case)


def fuzz(w, san, n, part):
    L = Lib("shake", san)
    L.san = san
    rng = w.rng
    for i in range(n):
        name = rng.choice(["modq", "modq16", "trim8", "trim16", "comp", "comp", "comp16", "comp16"])
        logn = rng.choice([9, 9, rng.randint(1, 10), rng.randint(1, 4)])
        bits = 0
        if name == "trim8":
            bits = rng.choice([5, 6, 7, 8, rng.randint(2, 8)])
        if name == "trim16":
            bits = rng.randint(2, 16)
        c = Codec(name, L, logn, bits)
        x = [value(rng, c) for _ in range(c.n)]
        if rng.random() < .15:
            v = bad_value(rng, c)
            if v is not None:
                x[rng.choice([0, c.n - 1, rng.randrange(c.n)])] = v
        enc = c.spec_encode(x)
        case = {"codec": name, "logn": logn, "bits": bits, "x": x if c.n <= 32 else x[:32]}
        w.now(case)
        want = len(enc) if enc is not None else 0
        full = want or c.n * 4 + 8
        r, o = c.encode(x, full)
        w.ev("encodes")
        if r != want or (enc is not None and o[:want] != enc):
            w.violation("encode:%s" % name, "%s(logn %d bits %d) returned %d, format says %d bytes%s" % (
                name, logn, bits, r, want, "" if r != want else " (other bytes)"), case)
            continue
        if san != "asan" and o[full:] != b"\xee" * 8:
            w.violation("encode-overrun:%s" % name, "%s wrote beyond max_out_len" % name, case)
        rq, _ = c.encode(x, 0, query=True)
        w.ev("size_queries")
        if rq != want:
            w.violation("encode-query:%s" % name, "%s size query says %d, not %d" % (name, rq, want), case)
        if enc is None:
            w.ev("encode_refusals")
            continue
        cut = rng.choice([0, 1, want - 1, want - 2, rng.randrange(want)])
        cut = max(0, cut)
        if cut < want:
            r, o = c.encode(x, cut)
            w.ev("short_buffers")
            if r != 0 or (san != "asan" and o[cut:] != b"\xee" * 8):
                w.violation("encode-short:%s" % name, "%s with %d of %d bytes returned %d" % (name, cut, want, r), case)
        one(w, c, enc, "own")
        one(w, c, enc + rng.randbytes(rng.choice([1, 3])), "trailing")
        one(w, c, enc[:cut], "cut")
        for _ in range(3):
            b = bytearray(enc)
            k = rng.randrange(5)
            if k == 0:
                b[-1] ^= 1 << rng.randrange(8)
            elif k == 1:
                for _ in range(rng.randrange(1, 4)):
                    b[rng.randrange(len(b))] = rng.choice([0, 0xff, 0x80, 0x30, 0x2f, 0xbf, 0xc0])
            elif k == 2:
                j = rng.randrange(len(b))
                b[j:j + 3] = b"\0" * min(3, len(b) - j)
            elif k == 3 and bits:
                y = [v & ((1 << bits) - 1) for v in x]
                y[rng.randrange(c.n)] = 1 << (bits - 1)
                b = bytearray(ref.pack(y, bits))
            elif k == 4 and name in ("modq", "modq16", "comp16"):
                bb = 14 if name == "modq" else 16
                y = [v % Q for v in x]
                j = rng.randrange(c.n)
                y[j] = rng.choice([Q, Q + 1, Q - 1, (1 << bb) - 1, 1 << (bb - 1), 6144, 6145, y[j] + Q, 2047, 2048]) & ((1 << bb) - 1)
                b = bytearray(ref.pack(y, bb))
            else:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            one(w, c, bytes(b), "mut%d" % k)
        if i % 50 == 0:
            w.sample(case)


def exhaust(w, name, bits, nbytes):
    """All inputs of nbytes bytes for two values."""
    L = Lib("shake", "")
    L.san = ""
    c = Codec(name, L, 1, bits)
    f = c
    seen = {}
    for v in range(1 << (8 * nbytes)):
        data = v.to_bytes(nbytes, "big")
        r, out = c.decode(data)
        e = c.spec_decode(data)
        w.evaluations += 1
        if (e[1] if e else 0) != r or (e and out != e[0]):
            w.violation("decode:%s" % name, "input %s: consumed %d, values %s; format says %s" % (data.hex(), r, out, e),
                        {"codec": name, "bits": bits, "logn": 1, "in": data})
        if e:
            w.ev("exhaustive_ok")
        k = (tuple(e[0]) if e else None, data[:e[1]] if e else None)
        if e:
            if seen.setdefault(k[0], k[1]) != k[1]:
                w.violation("two-spellings:%s" % name, "values %s have two encodings" % (k[0],), {"in": data})
    w.ev("exhaustive_spaces")
    w.case(("exhaust", name, bits, nbytes))


def words(w):
    """comp16/modq16: every word value in every one of a few positions."""
    L = Lib("shake", "")
    L.san = ""
    for name in ("comp16", "modq16"):
        c = Codec(name, L, 1, 0)
        for v in range(65536):
            for pos in (0, 1):
                d = [7, 7]
                d[pos] = v
                data = ref.pack(d, 16)
                r, out = c.decode(data)
                e = c.spec_decode(data)
                w.evaluations += 1
                if (e[1] if e else 0) != r or (e and out != e[0]):
                    w.violation("decode:%s" % name, "word %d: consumed %d, %s; format says %s" % (v, r, out, e), {"codec": name, "in": data})
        w.ev("exhaustive_spaces")
        for v in range(-32768, 32768):
            if name == "modq16" and v < 0:
                continue
            x = [v, 0]
            e = c.spec_encode(x)
            r, o = c.encode(x, 4)
            w.evaluations += 1
            if r != (4 if e else 0) or (e and o[:4] != e):
                w.violation("encode:%s" % name, "value %d encodes to %s (%d)" % (v, o[:4].hex(), r), {"codec": name, "x": x})
        w.case(("words", name))


def plan(R):
    build.prepare("shake", "shake/asan")
    q = R.quick
    t = [("fuzz", dict(san="", n=2500 if q else 60000, part=p), "") for p in range(3)]
    t += [("fuzz", dict(san="asan", n=700 if q else 20000, part=9 + p), "asan") for p in range(2 if q else 4)]
    t += [("exhaust", dict(name="trim8", bits=b, nbytes=(2 * b + 7) // 8), "") for b in range(2, 9)]
    t += [("exhaust", dict(name="trim16", bits=b, nbytes=(2 * b + 7) // 8), "") for b in ((2, 5, 8) if q else (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12))]
    t += [("exhaust", dict(name="comp", bits=0, nbytes=b), "") for b in ((1, 2) if q else (1, 2, 3))]
    t += [("words", {}, "")]
    return t


if __name__ == "__main__":
    pool.check("C06", "a codec call by (format, degree, width, mutation, bytes)", {"fuzz": fuzz, "exhaust": exhaust, "words": words}, plan,
               {"encodes": 4000, "decode_ok": 4000, "decode_no": 4000, "encode_refusals": 300, "short_buffers": 2000,
                "size_queries": 4000, "exhaustive_spaces": 12})
