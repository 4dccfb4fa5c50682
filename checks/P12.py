"""P12: the parameters in use are those the security targets give; the parameter script computes what it says."""
import ctypes, math, os, sys
from decimal import Decimal as D, getcontext
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import cfalcon, pool, pyref
from vh.ref import Q

getcontext().prec = 60
PI = D("3.14159265358979323846264338327950288419716939937510582097494459")
E = D(1).exp()
SIGMAX = D("1.8205")
BYTES = {2: 44, 4: 47, 8: 52, 16: 63, 32: 82, 64: 122, 128: 200, 256: 356, 512: 666, 1024: 1280}
LEGACY = {512: 1.291500756233514568549480827642, 1024: 1.311734375905083682667395805765}


def derive(n, target):
    """The specification's formulas, to 50 digits."""
    d = {}
    d["smooth"] = (2 * (2 * D(n)) * (1 + (target * D(2) ** 64).sqrt())).ln() / PI
    d["smooth"] = d["smooth"].sqrt() / (2 * PI).sqrt()
    d["gs_norm"] = D("1.17") * D(Q).sqrt()
    d["sigma"] = d["smooth"] * d["gs_norm"]
    d["sigmin"] = d["smooth"]
    d["fits"] = d["sigmin"] * D("1.17") ** 2 <= SIGMAX
    beta = D("1.1") * (2 * D(n)).sqrt() * d["sigma"]
    d["beta"], d["beta2"] = math.floor(beta), math.floor(beta * beta)
    d["near"] = abs(beta * beta - round(beta * beta)) < D("1e-6")
    m = 2 * n
    d["rejection"] = D("1.1") ** m * (m * (1 - D("1.21")) / 2).exp()

    def first(cond):
        for b in range(100, 100000):
            c = cond(D(b))
            if abs(c) < D("1e-9"):
                return None
            if c > 0:
                return b
    l = lambda b: (b / (2 * PI * E)).ln()
    sfg = d["gs_norm"] / (2 * D(n)).sqrt()
    d["keyrec"] = first(lambda b: (1 - D(n) / b) * l(b) + D(Q).ln() / 2 - ((3 * b / 4).sqrt() * sfg).ln())
    d["forgery"] = first(lambda b: D(d["beta"]).ln() - (D(n) / b) * l(b) - D(Q).ln() / 2)
    return d


def free(b):
    return round(b * math.log(4 / 3) / math.log(b / (2 * math.pi * math.e)))


def close(a, b, tol=1e-12):
    return abs(D(a) - D(b)) <= D(tol) * abs(D(b))


def script(w, count, part):
    with pyref.quiet():
        from scripts import parameters as P
    r = w.rng
    todo = [(n, max(2, n >> 2)) for n in BYTES] if part == 0 else []
    while len(todo) < count:
        n = r.choice([2 ** k for k in range(1, 11)] + [3 * 2 ** k for k in range(9)])
        if 12288 % (2 * n) == 0:
            todo.append((n, r.choice([1, 2, 64, 128, 192, 256, r.randrange(1, 1000), r.randrange(1, 1 << 40), 1 << 90])))
    for n, target in todo:
        case = {"n": n, "target": target}
        w.now(case)
        w.case((n, target))
        d = derive(n, target)
        try:
            p = P.FalconParam(n, target)
        except AssertionError:
            w.ev("refused")
            if d["fits"]:
                w.violation("refused", "FalconParam(%d, %d) is refused" % (n, target), case)
            continue
        w.ev("derived")
        if not d["fits"]:
            w.violation("sigmax", "FalconParam(%d, %d) lets the sampler exceed sigmax" % (n, target), case)
        for k, v in (("n", n), ("q", Q), ("gs_norm", d["gs_norm"]), ("sigma", d["sigma"]), ("sigmin", d["sigmin"]), ("sigmax", SIGMAX), ("tailcut_rate", 1.1),
                     ("rejection_rate", d["rejection"]), ("sig_bytesize", BYTES.get(n, 0)), ("target_bitsec", target), ("nb_queries", 2 ** 64),
                     ("leg_sq_max_sig_norm", 7085 * Q * n >> 10), ("leg_sigmin", LEGACY.get(n, 0)), ("leg_sigma", 1.55 * math.sqrt(Q))):
            if not close(getattr(p, k), v, 1e-9 if k == "rejection_rate" else 1e-12):
                w.violation("derived", "FalconParam(%d, %d).%s is %s, should be %s" % (n, target, k, getattr(p, k), v), case)
        exact = [("max_sig_norm", d["beta"])] if abs(d["beta"] ** 2 - d["beta2"]) > 1 else []
        exact += [] if d["near"] else [("sq_max_sig_norm", d["beta2"])]
        for name in ("keyrec", "forgery"):
            b = d[name]
            if b is None:
                continue
            exact += [(name + "_blocksize", b), (name + "_blocksize_opt", b - free(b))]
            for s, x in (("", b), ("_opt", b - free(b))):
                for c, f in (("c", .292), ("q", .265)):
                    exact.append(("%s_coresvp%s_%s" % (name, s, c), math.floor(x * f)))
        for k, v in exact:
            if getattr(p, k) != v:
                w.violation("derived", "FalconParam(%d, %d).%s is %s, should be %s" % (n, target, k, getattr(p, k), v), case)
        text = repr(p)
        for label, v in (("n", n), ("sigma", p.sigma), ("sigmin", p.sigmin), ("⌊β^2⌋", p.sq_max_sig_norm), ("sig_bytesize", p.sig_bytesize), ("keyrec_blocksize", "%d (%d)" % (p.keyrec_blocksize, p.keyrec_blocksize_opt)),
                         ("forgery_coresvp_q", "%d (%d)" % (p.forgery_coresvp_q, p.forgery_coresvp_opt_q))):
            if not any(l.split("=")[0].strip() == label and l.split("=", 1)[1].strip() == str(v) for l in text.splitlines() if "=" in l):
                w.violation("printed", "the text of FalconParam(%d, %d) does not give %s as %s" % (n, target, label, v), case)
        w.sample({"n": n, "target": target, "sigma": p.sigma, "bound": p.sq_max_sig_norm})
    for n in BYTES if part == 0 else []:
        p = P.Falcon[n]
        if (p.n, p.target_bitsec) != (n, max(2, n >> 2)):
            w.violation("table", "Falcon[%d] is for degree %d and %d bits" % (n, p.n, p.target_bitsec), {"n": n})


def used(w):
    """What the Python and the C code use, against the derivation."""
    with pyref.quiet():
        import falcon
    so = cfalcon.Lib("shake")
    for logn in range(1, 11):
        n = 1 << logn
        d = derive(n, max(2, n >> 2))
        case = {"n": n}
        w.now(case)
        w.case(("used", n))
        p = falcon.Params[n]
        got = {"sigma": (p["sigma"], d["sigma"]), "sigmin": (p["sigmin"], d["sigmin"]), "sig_bound": (p["sig_bound"], d["beta2"]), "sig_bytelen": (p["sig_bytelen"], BYTES[n]), "n": (p["n"], n)}
        for k, (a, b) in got.items():
            w.ev("python-parameters")
            if not close(a, b, 1e-14) or isinstance(b, int) and a != b:
                w.violation("python", "Params[%d][%s] is %s, should be %s" % (n, k, a, b), case)
        z = so.i16([0] * n)
        short = so.Z("is_short_half")
        lo, hi = 0, 1 << 31
        while hi - lo > 1:
            mid = (lo + hi) // 2
            lo, hi = (mid, hi) if short(ctypes.c_uint32(mid), z, logn) else (lo, mid)
        w.ev("c-bounds")
        if lo != d["beta2"]:
            w.violation("c-bound", "the C verifier's bound for degree %d is %d, should be %d" % (n, lo, d["beta2"]), case)


def plan(R):
    return [("used", {})] + [("script", dict(count=40 if R.quick else 1000, part=p)) for p in range(4)]


if __name__ == "__main__":
    pool.check("P12", "one (degree, security target) through the derivation, or one degree's parameters in use", {"script": script, "used": used}, plan,
               {"derived": 60, "refused": 5, "python-parameters": 50, "c-bounds": 10})
