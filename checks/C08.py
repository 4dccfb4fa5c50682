"""C08: key generation: NTRU equation, public key, bounds, determinism, refusals."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import build, pool, ref
from vh.cfalcon import Lib, cbuf, frm
from vh.ref import N, Q
import ctypes as C

TEMP = {1: 136, 2: 272, 3: 224, 4: 448, 5: 896, 6: 1792, 7: 3584, 8: 7168, 9: 14336, 10: 28672}
FG = [0, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5]


def ntru(w, f, g, F, G, case):
    """fG - gF = q in Z[x]/(x^n+1)"""
    a, b = ref.mulz(f, G), ref.mulz(g, F)
    d = [x - y for x, y in zip(a, b)]
    w.ev("ntru_equations")
    if d[0] != Q or any(d[1:]):
        w.violation("ntru", "fG - gF is not q", case)
        return False
    return True


def gs_ok(f, g):
    """Both Gram-Schmidt norms within 1.17^2 q (computed in float, slightly relaxed)."""
    n = len(f)
    lim = 1.17 ** 2 * Q
    n0 = ref.norm2(f, g)
    z = np.exp(1j * np.pi * (2 * np.arange(n) + 1) / n)
    ff = np.fft.fft(np.array(f) * np.exp(1j * np.pi * np.arange(n) / n))
    gg = np.fft.fft(np.array(g) * np.exp(1j * np.pi * np.arange(n) / n))
    n1 = (Q * Q / (abs(ff) ** 2 + abs(gg) ** 2)).sum() / n
    return n0 <= lim * 1.0001 and n1 <= lim * 1.0001, n0, n1


def sign_rc(L, zk, sk):
    """0 / -1 of signing with that key, None if it does not come back within 20 s of processor time"""
    import resource
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            r, sm = L.sign("zknox" if zk else "nist", b"damaged", sk)
            os._exit(1 if r else 0)
        except BaseException:
            os._exit(7)
    st = os.waitpid(pid, 0)[1]
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else None


def damaged(w, L, rng, kind, mode, zk, sk, f, g, F, G, case):
    """A private key is used for signing exactly when it decodes and the G it implies fits."""
    f2, g2, F2 = list(f), list(g), list(F)
    sk2 = None
    if kind == "byte":
        b = bytearray(sk)
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        sk2 = bytes(b)
    elif kind == "coef":
        t = rng.choice([f2, g2, F2])
        j = rng.randrange(N)
        t[j] += rng.choice([-1, 1]) if abs(t[j]) < 30 else (-1 if t[j] > 0 else 1)
    else:
        # another basis of the same lattice: F + k f, G + k g for a small polynomial k
        Fa, Ga, fa, ga = (np.array(t) for t in (F, G, f, g))
        best = None
        for _ in range(400 if kind == "edge" else 1):
            c, j = rng.choice([-3, -2, -1, 1, 2, 3]), rng.randrange(N)
            rot = lambda a: np.concatenate([-a[N - j:], a[:N - j]])
            Fk, Gk = Fa + c * rot(fa), Ga + c * rot(ga)
            if abs(Fk).max() > 127:
                Fa, Ga = np.array(F), np.array(G)
                continue
            m = abs(Gk).max()
            if best is None or abs(m - 127.5) < abs(best[0] - 127.5):
                best = (m, Fk)
            if m > 140:
                Fa, Ga = np.array(F), np.array(G)
            else:
                Fa, Ga = Fk, Gk
        if best:
            F2 = [int(v) for v in best[1]]
            w.ev("damaged_max_%d" % min(140, best[0]) if best[0] > 124 else "damaged_max_small")
    if sk2 is None:
        sk2 = ref.sk_encode(f2, g2, F2)
    dec = ref.sk_decode(sk2)
    case = dict(case, damage=kind, sk2=sk2)
    want, Gx = 0, None
    if dec is not None:
        fi = ref.invq(dec[0])
        if fi is not None:
            Gx = [int(v) for v in ref.centre(ref.mulq(ref.mulq(dec[1], dec[2]), fi))]
            want = int(max(map(abs, Gx)) <= 127)
        Gb = (C.c_int8 * N)()
        r = L.Z("complete_private")(Gb, L.i8(dec[0]), L.i8(dec[1]), L.i8(dec[2]), 9, L.tmp(4 * N))
        w.ev("damaged_completions")
        w.ev("damaged_%s_%s" % (kind, "usable" if want else "unusable"))
        if r != want or (want and list(Gb) != Gx):
            w.violation("damaged-complete", "complete_private returns %d for a key whose G has maximum %s" % (r, Gx and max(map(abs, Gx))), case)
            return
    rc = sign_rc(L, zk, sk2)
    w.ev("damaged_signs")
    if rc == 7:
        raise RuntimeError("signing child failed")
    if rc is None or (rc == 0) != bool(want):
        w.violation("damaged-sign", "signing with a %s key %s" % ("usable" if want else "damaged", "does not return" if rc is None else "gives %d" % -rc), case)


def api(w, mode, san, n, part):
    L = Lib(mode, san)
    rng = w.rng
    sq = []
    for i in range(n):
        zk = rng.random() < .5
        seed = None if rng.random() < .4 else rng.randbytes(rng.choice([32, 33, 48, 64, 136, 137, 1000]))
        rb = rng.getrandbits(63)
        case = {"zk": zk, "seed": seed, "rb": rb}
        w.now(case)
        L.seed(rb)
        r, pk, sk = L.keypair(zk, seed)
        if r:
            w.violation("keygen", "key generation returned %d" % r, case)
            continue
        log = L.rb_log()
        w.ev("keys")
        w.case((mode, zk, sk[1:20]))
        dec = ref.sk_decode(sk)
        h = ref.pk_decode(pk, zk)
        if dec is None or h is None:
            w.violation("encoding", "generated key does not decode", case)
            continue
        f, g, F = dec
        sq += f + g
        if list(ref.mulq(f, h)) != [v % Q for v in g]:
            w.violation("public", "h*f != g mod q", case)
        fi = ref.invq(f)
        if fi is None:
            w.violation("f-invertible", "f is not invertible mod q", case)
            continue
        G = [int(v) for v in ref.centre(ref.mulq(ref.mulq(g, F), fi))]
        ntru(w, f, g, F, G, case)
        ok, n0, n1 = gs_ok(f, g)
        if not ok:
            w.violation("gram-schmidt", "Gram-Schmidt norms %s %s exceed the bound" % (n0, n1), case)
        if max(map(abs, G)) > 127:
            w.violation("G-range", "G does not fit", case)
        # completing the private key gives that G
        Gb = (C.c_int8 * N)()
        r = L.Z("complete_private")(Gb, L.i8(f), L.i8(g), L.i8(F), 9, L.tmp(4 * N))
        w.ev("completions")
        if r != 1 or list(Gb) != G:
            w.violation("complete", "complete_private does not give G", case)
        for kind in rng.sample(["byte", "coef", "shift", "shift", "edge"], 3):
            damaged(w, L, rng, kind, mode, zk, sk, f, g, F, G, case)
        # determinism, and independence of everything but the seed
        if seed is not None:
            if log:
                w.violation("seeded-random", "seeded key generation consumes randomness", case)
            L.seed(rb ^ 12345)
            r, pk2, sk2 = L.keypair(zk, seed)
            w.ev("replays")
            if (pk2, sk2) != (pk, sk):
                w.violation("deterministic", "same seed, another key", case)
            b = bytearray(seed)
            b[rng.choice([0, len(b) - 1, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
            r, pk3, sk3 = L.keypair(zk, bytes(b))
            w.ev("seed_changes")
            if sk3 == sk or pk3 == pk:
                w.violation("seed-bits", "a changed seed gives the same key", case)
            if len(seed) > 32:
                r, pk3, sk3 = L.keypair(zk, seed[:-1])
                if sk3 == sk:
                    w.violation("seed-length", "a shorter seed gives the same key", case)
        else:
            if sum(log) < 32:
                w.violation("entropy", "key generation drew only %d random bytes" % sum(log), case)
        short = rng.randbytes(rng.randrange(32))
        r, p4, s4 = L.keypair(zk, short)
        w.ev("short_seeds")
        if r == 0:
            w.violation("short-seed", "a %d byte seed is accepted" % len(short), case)
        elif s4 != b"\xa5" * 1281:
            w.violation("short-seed-output", "a refused seed writes a key", case)
        if i < 1:
            w.sample({"zk": zk, "seed": seed, "f": f[:8], "g": g[:8], "F": F[:8], "n0": n0, "n1": n1})
    w.ev("coefficients", len(sq))
    w.ev("coef_square_sum", int(sum(v * v for v in sq)))
    w.ev("coef_sum_abs_bias", abs(sum(sq)))


def degrees(w, n, part):
    L = Lib("shake")
    rng = w.rng
    for i in range(n):
        logn = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10])
        m = 1 << logn
        s = rng.randbytes(48)
        case = {"logn": logn, "seed": s.hex()}
        w.now(case)
        out = []
        for want in (True, False):
            f, g, F, G = [(C.c_int8 * m)() for _ in range(4)]
            h = (C.c_uint16 * m)()
            L.Z("keygen")(L.shake(s), f, g, F, G if want else None, h if want else None, logn, L.tmp(TEMP[logn]))
            out.append((list(f), list(g), list(F), list(G), list(h)))
        f, g, F, G, h = out[0]
        w.ev("degree_keys")
        w.case((logn, s))
        if out[1][:3] != out[0][:3]:
            w.violation("optional-outputs", "leaving out G and h changes the key", case)
        if not ntru(w, f, g, F, G, case):
            continue
        if list(ref.mulq(f, h)) != [v % Q for v in g]:
            w.violation("public", "h*f != g mod q (degree %d)" % m, case)
        mx = (1 << (FG[logn] - 1)) - 1
        if max(map(abs, f + g)) > mx or max(map(abs, F + G)) > 127:
            w.violation("range", "key elements do not fit their encoding (degree %d)" % m, case)
        h2 = (C.c_uint16 * m)()
        r = L.Z("compute_public")(h2, L.i8(f), L.i8(g), logn, L.tmp(2 * m))
        if r != 1 or list(h2) != h:
            w.violation("compute_public", "compute_public differs from keygen", case)
        if logn >= 8 and not gs_ok(f, g)[0]:
            w.violation("gram-schmidt", "Gram-Schmidt norms exceed the bound (degree %d)" % m, case)


KEY_TABLE = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527,
             242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641,
             23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]


class Candidates:
    """The pairs (f, g) the specification draws from a seed."""

    def __init__(self, seed, logn):
        self.x, self.logn, self.size, self.p = hashlib.shake_256(seed), logn, 1 << 17, 0
        self.fill()

    def fill(self):
        a, b = np.frombuffer(self.x.digest(self.size), dtype="<u8").reshape(-1, 2).T
        m = np.uint64((1 << 63) - 1)
        T = np.array(KEY_TABLE, dtype=np.uint64)
        v = len(T) - np.searchsorted(T[:0:-1], b & m, side="right")
        v = np.where((a & m) < T[0], 0, np.where(a >> np.uint64(63), -v, v))
        self.v = v.reshape(-1, 1 << (10 - self.logn)).sum(1).tolist()

    def coef(self):
        if self.p >= len(self.v):
            self.size *= 2
            self.fill()
        self.p += 1
        return self.v[self.p - 1]

    def poly(self):
        n, out = 1 << self.logn, []
        while len(out) < n:
            v = self.coef()
            if abs(v) > 127 or len(out) == n - 1 and (sum(out) + v) % 2 == 0:
                continue
            out.append(v)
        return out

    def pair(self):
        return self.poly(), self.poly()


def criteria(f, g, logn):
    """None: fit for a key (unless the NTRU equation has no small solution); else the reason to discard."""
    if max(map(abs, f + g)) >= 1 << (FG[logn] - 1):
        return "coefficient"
    if ref.norm2(f, g) >= 16823:
        return "norm"
    n1 = gs_ok(f, g)[2]
    if abs(n1 - 1.17 ** 2 * Q) < 1e-7:
        return "?"
    if n1 > 1.17 ** 2 * Q:
        return "orthogonalized"
    return "inverse" if (ref.ntt(f) == 0).any() else None


# seeds whose first pair sits on a limit: a coefficient just too large, an orthogonalized norm within 0.02 of the bound
RARE = {10: [129232, 376325, 691736, 800273, 943546, 139882, 466687], 9: [497829], 8: [866297, 263482, 476206, 849321], 7: [86366],
        6: [453056, 687473], 5: [495998], 4: [355968, 534051]}


def drawn(w, logn, n, part):
    """The key is the first pair drawn from the seed that meets every criterion."""
    L = Lib("shake")
    rng, m = w.rng, 1 << logn
    seeds = [b"%d:%d" % (logn, k) for k in RARE.get(logn, [])] if part == 0 else []
    for s in seeds + [rng.randbytes(rng.choice([0, 1, 32, 48])) for _ in range(n)]:
        case = {"logn": logn, "seed": s}
        w.now(case)
        f, g, F, G = [(C.c_int8 * m)() for _ in range(4)]
        h = (C.c_uint16 * m)()
        L.Z("keygen")(L.shake(s), f, g, F, G, h, logn, L.tmp(TEMP[logn]))
        f, g, F, G = list(f), list(g), list(F), list(G)
        w.ev("drawn_keys")
        w.case((logn, s, "drawn"))
        c = Candidates(s, logn)
        for i in range(300):
            p = c.pair()
            why = criteria(*p, logn)
            if p == (f, g):
                break
            w.ev("discarded_" + (why or "unsolved"))
        else:
            w.violation("drawn", "logn %d: the key is none of the first 300 pairs its seed gives" % logn, case)
            continue
        w.ev("solved")
        if why not in (None, "?"):
            w.violation("criteria", "logn %d: a pair is used that should be discarded: %s" % (logn, why), case)
        if max(map(abs, F + G)) > 127:
            w.violation("range", "logn %d: F or G does not fit its encoding" % logn, case)
        ntru(w, f, g, F, G, case)
        if list(ref.mulq(f, h)) != [v % Q for v in g]:
            w.violation("public", "h*f != g mod q (degree %d)" % m, case)


def after(R):
    a, b = R.counters.get("discarded_unsolved", 0), R.counters.get("solved", 0)
    R.extra["unsolved_pairs"] = a / max(1, a + b)
    c = R.counters.get("coefficients", 0)
    if c > 20000:
        var = R.counters["coef_square_sum"] / c
        R.extra["coefficient_variance"] = var
        # sigma = 1.17 sqrt(q/2n): variance 16.43; rejection on the norm trims it by a few percent
        if not 14.2 < var < 16.9:
            R.violation("coef-variance", "variance of f, g coefficients is %.3f" % var, None)


def plan(R):
    build.prepare("shake", "eth", "shake/asan")
    q = R.quick
    t = [("api", dict(mode=m, san="", n=45 if q else 1200, part=p)) for p in range(2) for m in ("shake", "eth")]
    t += [("degrees", dict(n=150 if q else 4000, part=p)) for p in range(3)]
    for logn in range(10, 0, -1):
        k = 20 if logn > 8 else 80 if logn > 5 else 400
        t += [("drawn", dict(logn=logn, n=k if q else 40 * k, part=p)) for p in range(2)]
    t += [("api", dict(mode="shake", san="asan", n=8 if q else 150, part=9), "asan")]
    return t


if __name__ == "__main__":
    pool.check("C08", "a generated key (entry point, seed, degree)", {"api": api, "degrees": degrees, "drawn": drawn}, plan,
               {"keys": 100, "ntru_equations": 300, "replays": 40, "seed_changes": 40, "short_seeds": 100, "completions": 100, "damaged_completions": 100, "damaged_signs": 100,
                "drawn_keys": 3000, "discarded_norm": 1000, "discarded_orthogonalized": 300, "discarded_coefficient": 6, "discarded_inverse": 20}, after=after)
