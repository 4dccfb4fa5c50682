"""C10: the C hash functions are SHAKE256, Keccak-256 and the Keccak counter-mode PRNG however they are fed and read."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib, frm, cbuf
import ctypes as C


def pieces(rng, n):
    """Split n into a few pieces, some empty, some at the rate."""
    out = []
    while n > 0:
        k = rng.choice([0, 1, 2, 8, 31, 32, 33, 64, 135, 136, 137, 272, rng.randrange(1, 400), n])
        k = min(k, n)
        out.append(k)
        n -= k
    if rng.random() < .3:
        out.append(0)
    return out or [0]


def shake(w, san, n, part):
    L = Lib("shake", san)
    rng = w.rng
    for i in range(n):
        data = rng.randbytes(rng.choice([0, 1, 134, 135, 136, 137, 271, 272, 273, rng.randrange(1500), rng.randrange(20000)]))
        outn = rng.choice([0, 1, 135, 136, 137, 272, 1000, rng.randrange(3000)])
        pi, po = pieces(rng, len(data)), pieces(rng, outn)
        case = {"hash": "shake256", "data": data, "in": pi, "out": po}
        w.now(case)
        ctx = L.shake()
        p = 0
        for k in pi:
            b = frm(data[p:p + k])
            L.Z("i_shake256_inject")(ctx, b, k)
            p += k
        L.Z("i_shake256_flip")(ctx)
        got = b"".join(L.shake_out(ctx, k) for k in po)
        w.ev("shake_streams")
        w.case(("s", len(data), tuple(pi[:6]), tuple(po[:6])))
        if got != ref.shake256(data, outn):
            w.violation("shake", "SHAKE256 stream differs", case)
        if i < 2:
            w.sample({k: case[k] for k in ("hash", "in", "out")})


def keccak(w, san, n, part):
    L = Lib("shake", san)
    rng = w.rng
    inj, ext, flip, init = (L.Z("i_keccak256_" + x) for x in ("inject", "extract", "flip", "init"))
    for i in range(n):
        data = rng.randbytes(rng.choice([0, 1, 31, 32, 135, 136, 137, 272, 4095, 4096, 4097, rng.randrange(4097), rng.randrange(9000)]))
        outn = rng.choice([0, 1, 31, 32, 33, 64, 1200, rng.randrange(2000)])
        pi, po = pieces(rng, len(data)), pieces(rng, outn)
        case = {"hash": "keccak-prng", "data": data, "in": pi, "out": po}
        w.now(case)
        ctx = L.keccak()
        if rng.random() < .5:
            C.memset(ctx, 0xA5, len(ctx))
            if init(ctx):
                w.violation("init", "init of a used context fails", case)
        # a model of the absorbing side
        fed, p = b"", 0
        o = cbuf(64)
        if rng.random() < .3:
            w.ev("misuse_calls")
            if ext(ctx, o, 8) == 0:
                w.violation("extract-early", "extract before flip succeeds", case)
        for k in pi:
            b = frm(data[p:p + k] if k else b"x")
            r = inj(ctx, b, k)
            if len(fed) + k > 4096:
                w.ev("overflow_refusals")
                if r == 0:
                    w.violation("overflow", "inject beyond the buffer reports success", case)
            else:
                if r != 0:
                    w.violation("inject", "inject of %d after %d returns %d" % (k, len(fed), r), case)
                fed += data[p:p + k]
            p += k
        if inj(ctx, None, 1) == 0:
            w.violation("null", "inject of NULL succeeds", case)
        if flip(ctx):
            w.violation("flip", "flip fails", case)
        if rng.random() < .5:
            w.ev("misuse_calls", 2)
            if inj(ctx, frm(b"abc"), 3) == 0:
                w.violation("inject-late", "inject after flip succeeds", case)
            if flip(ctx) == 0:
                w.violation("flip-twice", "second flip succeeds", case)
        got = b""
        for k in po:
            b = cbuf(max(k, 1))
            r = ext(ctx, b, k)
            if r:
                w.violation("extract", "extract returns %d" % r, case)
            got += bytes(b)[:k]
            if rng.random() < .1:
                # misuse in mid-stream must not disturb the stream
                inj(ctx, frm(b"zzz"), 3)
                flip(ctx)
                ext(ctx, None, 4)
                w.ev("misuse_calls", 3)
        w.ev("keccak_streams")
        w.case(("k", len(data), len(fed), tuple(pi[:6]), tuple(po[:6])))
        if got != ref.kprng(fed, outn):
            w.violation("keccak-prng", "Keccak PRNG stream differs", case)
    for f in (init, flip):
        if f(None) == 0:
            w.violation("null", "NULL context accepted", {})


def raw(w, san, n, part):
    """keccak256.c on its own."""
    L = Lib("shake", san)
    rng = w.rng
    c = L.c
    c.keccak_update.argtypes = [C.c_void_p, C.c_void_p, C.c_uint16]
    c.keccak_init.argtypes = [C.c_void_p]
    c.keccak_final.argtypes = [C.c_void_p, C.c_void_p]
    for i in range(n):
        data = rng.randbytes(rng.choice([0, 1, 7, 8, 9, 127, 128, 135, 136, 137, 271, 272, 273, rng.randrange(3000), rng.randrange(70000)]))
        pi = [k for k in pieces(rng, len(data))]
        case = {"hash": "keccak256", "data": data, "in": pi}
        w.now(case)
        ctx = (C.c_uint64 * 64)()
        c.keccak_init(ctx)
        p = 0
        for k in pi:
            while k > 65535:
                c.keccak_update(ctx, frm(data[p:p + 65535]), 65535)
                p += 65535
                k -= 65535
            c.keccak_update(ctx, frm(data[p:p + k]), k)
            p += k
        o = cbuf(32)
        c.keccak_final(ctx, o)
        w.ev("keccak_hashes")
        w.case(("r", len(data), tuple(pi[:6])))
        if bytes(o) != ref.keccak256(data):
            w.violation("keccak256", "Keccak-256 differs (%d bytes in %s)" % (len(data), pi[:12]), case)


def long(w, blocks, part):
    """Streams past the 16-bit (thorough: 24-bit) carry of the block counter, and long SHAKE outputs."""
    L = Lib("shake", "")
    rng = w.rng
    data = rng.randbytes(rng.randrange(200))
    case = {"hash": "keccak-prng", "data": data, "blocks": blocks}
    w.now(case, cpu=1000)
    st = ref.keccak256(data)
    ctx = L.keccak(data)
    ext = L.Z("i_keccak256_extract")
    total, pos, step = 32 * blocks, 0, 1 << 16
    spots = {0, 255, 256, 65535, 65536, 65537, 65791, 65792, blocks - 1} | {rng.randrange(blocks) for _ in range(40)} | {(1 << 24) - 1, 1 << 24}
    todo = sorted(x for x in spots if x < blocks)
    while pos < total:
        k = min(total - pos, step + rng.randrange(100))
        b = cbuf(k)
        if ext(ctx, b, k):
            w.violation("extract", "extract fails at byte %d of a long stream" % pos, case)
            return
        b = bytes(b)
        while todo and 32 * todo[0] < pos + k:
            x = todo[0]
            e = ref.keccak256(st + x.to_bytes(8, "big"))
            lo, hi = max(32 * x, pos), min(32 * x + 32, pos + k)
            w.ev("long_blocks")
            w.case(("long", data[:8], x, lo))
            if b[lo - pos:hi - pos] != e[lo - 32 * x:hi - 32 * x]:
                w.violation("keccak-prng", "Keccak PRNG block %d differs" % x, case)
                return
            if hi < 32 * x + 32:
                break
            todo.pop(0)
        pos += k
    case = {"hash": "shake256", "data": data, "bytes": 3 << 20}
    w.now(case, cpu=1000)
    sc = L.shake(data)
    got = b"".join(L.shake_out(sc, k) for k in (1, 70001, 135, 136, 137, (3 << 20) - 70410))
    w.ev("long_shake")
    if got != hashlib.shake_256(data).digest(3 << 20):
        w.violation("shake", "a long SHAKE256 output differs", case)


def plan(R):
    build.prepare("shake", "shake/asan")
    q = R.quick
    t = []
    for job, n in (("shake", 4000), ("keccak", 3000), ("raw", 3000)):
        for p in range(2):
            t.append((job, dict(san="", n=n if q else n * 30, part=p)))
        t.append((job, dict(san="asan", n=n // 4 if q else n * 4, part=9), "asan"))
    t.append(("long", dict(blocks=(1 << 16) + 700, part=0)))
    if not q:
        t.append(("long", dict(blocks=(1 << 24) + 700, part=1)))
    return t


if __name__ == "__main__":
    pool.check("C10", "a hash run by (function, input length, way it was split)", {"shake": shake, "keccak": keccak, "raw": raw, "long": long}, plan,
               {"shake_streams": 5000, "keccak_streams": 4000, "keccak_hashes": 4000, "long_blocks": 40, "long_shake": 1, "overflow_refusals": 300, "misuse_calls": 2000})
