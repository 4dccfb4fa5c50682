"""C09: the hash-to-point variants of the C reference give the specified point, for every degree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib, frm, cbuf
from vh.ref import Q
import ctypes as C

EDGE = {61444, 61445, 12288, 12289, 49155, 49156, 0, 65535, 24578, 36867}


def interesting(rng, mode, n, want):
    """Inputs whose stream holds edge words, or unusually many rejections, within the part that is used."""
    best, score = None, -1
    for _ in range(want):
        d = rng.randbytes(rng.choice([0, 1, 40, 72, 135, 136, 137, 272, 300]))
        s = ref.xof(mode)(d, 2 * n + 150)
        ws = [(s[i] << 8) | s[i + 1] for i in range(0, len(s), 2)]
        k = 5 * sum(x in EDGE for x in ws[:n]) + 0.2 * sum(x >= 61445 for x in ws[:n]) * (rng.random() < .3)
        if k > score:
            best, score = d, k
    return best


def points(w, san, n, part):
    L = Lib("shake", san)
    rng = w.rng
    for i in range(n):
        logn = rng.choice([9, 9, 9, 10, rng.randint(1, 10)])
        m = 1 << logn
        mode = rng.choice(["shake", "eth"])
        d = interesting(rng, mode, m, rng.choice([1, 40])) if m >= 256 else rng.randbytes(rng.randrange(300))
        case = {"mode": mode, "logn": logn, "data": d}
        w.now(case)
        exp = ref.hash_to_point(d, mode, m)
        x = L.u16([0xFFFF] * m)
        w.case((mode, logn, d))
        s = ref.xof(mode)(d, 2 * m)
        ws = [(s[j] << 8) | s[j + 1] for j in range(0, len(s), 2)]
        w.ev("edge_words", sum(v in EDGE for v in ws))
        w.ev("rejected_words", sum(v >= 61445 for v in ws))
        if mode == "eth":
            L.Z("keccak_hash_to_point_vartime")(L.keccak(d), x, logn)
            w.ev("keccak_points")
            if list(x) != exp:
                w.violation("keccak", "keccak_hash_to_point_vartime gives another point (degree %d)" % m, case)
            continue
        sc = L.shake(d)
        L.Z("hash_to_point_vartime")(sc, x, logn)
        w.ev("vartime_points")
        if list(x) != exp:
            w.violation("vartime", "hash_to_point_vartime gives another point (degree %d)" % m, case)
        y = L.u16([0xFFFF] * m)
        L.Z("hash_to_point_ct")(L.shake(d), y, logn, L.tmp(2 * m))
        w.ev("ct_points")
        if list(y) != exp:
            w.violation("ct", "hash_to_point_ct gives another point (degree %d)" % m, case)
        if i % 40 == 0:
            w.sample(case)


OVER = {1: 65, 2: 67, 3: 71, 4: 77, 5: 86, 6: 100, 7: 122, 8: 154, 9: 205, 10: 287}


def words(rng, m, rejected):
    """m accepted words with this many rejected ones among them, in runs or scattered, edge values preferred."""
    def good():
        return rng.choice([0, 1, 12288, 12289, 24577, 24578, 36866, 36867, 49155, 49156, 61443, 61444]) if rng.random() < .3 else rng.randrange(61445)

    def bad():
        return rng.choice([61445, 61446, 65535, 65534, 0xF0F0, 61445]) if rng.random() < .5 else rng.randrange(61445, 65536)
    out = [good() for _ in range(m)]
    how = rng.randrange(6)
    if how == 0:
        at = [0] * rejected
    elif how == 1:
        at = [m - 1] * rejected
    elif how == 2:
        at = [rng.randrange(m)] * rejected
    elif how == 3:
        a, b = rng.randrange(m), rng.randrange(m)
        at = [rng.choice([a, b]) for _ in range(rejected)]
    else:
        at = [rng.randrange(m) for _ in range(rejected)]
    at.sort(reverse=True)
    if how == 5:
        at = [i % m for i in range(rejected)][::-1]
        at.sort(reverse=True)
    for i in at:
        out.insert(i, bad())
    return out


def streams(w, san, n, part):
    """The three functions on chosen streams: runs of rejected words up to what the constant-time one is made for."""
    L = Lib("shake", san)
    c = C.CDLL(build.scripted(san))
    c.scr_used.restype = C.c_size_t
    c.scr_set.argtypes = [C.c_void_p, C.c_size_t]
    rng = w.rng
    ctx = cbuf(4096 * 4)
    for i in range(n):
        logn = rng.choice([9, 10, rng.randint(1, 10)])
        m = 1 << logn
        ov = OVER[logn]
        k = rng.choice([0, 1, 2, 3, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, ov - 1, ov, ov, rng.randrange(ov + 1), rng.randrange(ov + 1)])
        k = min(k, ov)
        ws = words(rng, m, k)
        tail = [rng.randrange(65536) for _ in range(ov + 8)]
        data = b"".join(v.to_bytes(2, "big") for v in ws + tail)
        exp = [v % Q for v in ws if v < 61445]
        buf = frm(data)
        case = {"logn": logn, "rejected": k, "stream": data}
        w.now(case)
        w.case(("stream", logn, k, data[:16], data[2 * m - 16:2 * m + 16]))
        w.ev("chosen_streams")
        w.ev("chosen_rejections", k)
        w.ev("limit_streams", int(k == ov))
        for name in ("keccak_hash_to_point_vartime", "hash_to_point_vartime", "hash_to_point_ct"):
            x = L.u16([0xFFFF] * m)
            c.scr_set(buf, len(data))
            f = getattr(c, "falcon_inner_" + name)
            if name.endswith("ct"):
                f(ctx, x, logn, L.tmp(2 * m))
            else:
                f(ctx, x, logn)
            if list(x) != exp:
                w.violation("stream:" + name, "%s gives another point (degree %d, %d words rejected)" % (name, m, k), case)


def plan(R):
    build.prepare("shake", "shake/asan")
    build.scripted("")
    build.scripted("asan")
    q = R.quick
    return [("streams", dict(san="", n=1200 if q else 30000, part=p)) for p in range(4)] + \
           [("streams", dict(san="asan", n=400 if q else 6000, part=9), "asan")] + \
           [("points", dict(san="", n=700 if q else 20000, part=p)) for p in range(7)] + \
           [("points", dict(san="asan", n=250 if q else 4000, part=9), "asan")]


if __name__ == "__main__":
    pool.check("C09", "a hashed input (hash, degree, bytes)", {"points": points, "streams": streams}, plan,
               {"keccak_points": 1000, "vartime_points": 1000, "ct_points": 1000, "edge_words": 1000, "chosen_streams": 3000, "limit_streams": 300, "rejected_words": 10000})
