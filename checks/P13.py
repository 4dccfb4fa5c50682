"""P13: the sampler test suite (scripts/saga.py) reports its samples truthfully and tells Gaussians from other samples."""
import json, math, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, mon, pool

PYTHON = "/opt/veriftools/pyvenv/bin/python"       # has scipy and numpy
TAU, BUCKET, PMIN = 14, 10, 0.001


def rho(x, mu, s):
    return math.exp(-(x - mu) ** 2 / (2 * s * s))


def span(mu, s):
    z = math.ceil(TAU * s)
    return range(math.floor(mu) - z, math.ceil(mu) + z)


def pdt(mu, s):
    v = {z: rho(z, mu, s) for z in span(mu, s)}
    t = math.fsum(v.values())
    return {z: x / t for z, x in v.items()}


def upper(x, k):
    """P(chi squared with k degrees of freedom > x)."""
    a, x = k / 2, x / 2
    if x <= 0:
        return 1.0
    if x < a + 1:
        t = s = 1 / a
        i = a
        while t > s * 1e-17:
            i += 1
            t *= x / i
            s += t
        return max(0.0, 1 - s * math.exp(-x + a * math.log(x) - math.lgamma(a)))
    b = x + 1 - a
    c, d = 1e300, 1 / b
    h = d
    for i in range(1, 10000):
        an = -i * (i - a)
        b += 2
        d = 1 / (an * d + b or 1e-300)
        c = b + an / c or 1e-300
        h *= d * c
        if abs(d * c - 1) < 1e-15:
            break
    return math.exp(-x + a * math.log(x) - math.lgamma(a)) * h


def moments(v):
    n = len(v)
    m = math.fsum(v) / n
    c = [math.fsum((x - m) ** k for x in v) / n for k in (2, 3, 4)]
    return m, c[0], (c[1] / c[0] ** 1.5 if c[0] else 0), (c[2] / c[0] ** 2 - 3 if c[0] else 0)


def chi(mu, s, v):
    """Statistic and degrees of freedom with tails merged until every bucket expects ten samples."""
    n, p = len(v), pdt(mu, s)
    cnt = dict.fromkeys(p, 0)
    for z in v:
        if z in cnt:
            cnt[z] += 1
    obs, exp, o, e = [], [], 0, 0.0
    for z in p:
        o, e = o + cnt[z], e + p[z]
        if e >= BUCKET / n:
            obs.append(o)
            exp.append(e * n)
            o, e = 0, 0.0
    obs[-1] += o
    exp[-1] += e * n
    return cnt, obs, exp


def near(a, b, tol=1e-9):
    return isinstance(a, (int, float)) and abs(a - b) <= tol * max(1, abs(b))


class Driver:
    def __init__(self):
        self.p = subprocess.Popen([PYTHON, os.path.join(mon.VERIF, "stubs", "saga", "drive.py"), mon.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, env=dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"))

    def ask(self, **q):
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = ""
        if not l:
            raise RuntimeError("saga.py cannot be loaded: " + self.p.stderr.read()[-600:])
        return json.loads(l)


def draw(rng, mu, s, n):
    p = pdt(mu, s)
    return rng.choices(list(p), list(p.values()), k=n)


def judge_uni(w, mu, s, v, r, case, full=True):
    """What is reported of one list. Returns the bounds within which the p-value must lie."""
    def bad(key, text):
        w.violation(key, text, case)
    cnt, obs, exp = chi(mu, s, v)
    m, var, sk, ku = moments(v)
    for k, want in (("mu", mu), ("sigma", s), ("n", len(v)), ("mean", m), ("variance", var), ("stdev", math.sqrt(var)), ("skewness", sk), ("kurtosis", ku)):
        if not near(r[k], want, 1e-7) and (var or k not in ("skewness", "kurtosis")):
            bad("moment", "%s of %d samples is %s, expected %s" % (k, len(v), r[k], want))
    if [tuple(x) for x in r["histogram"]] != list(cnt.items()):
        bad("histogram", "the histogram for centre %r and deviation %r is wrong" % (mu, s))
    if r["outlier"] != len(v) - sum(cnt.values()):
        bad("outlier", "%d outliers reported, there are %d" % (r["outlier"], len(v) - sum(cnt.values())))
    # expected numbers are rounded to whole ones: the statistic lies in a band around the unrounded one
    st = sum((o - e) ** 2 / e for o, e in zip(obs, exp))
    slack = sum((2 * abs(o - e) + 1) / e + ((abs(o - e) + 1) ** 2) / (e * e) for o, e in zip(obs, exp)) * .75 + 1e-6
    k = max(range(len(exp)), key=lambda i: exp[i])
    n_off = len(exp) / 2 + r["outlier"] + 1        # what the rounding may leave to correct in one bucket
    slack += (2 * abs(obs[k] - exp[k]) * n_off + n_off ** 2) / max(exp[k] - n_off, 1)
    w.ev("statistics")
    if not isinstance(r["stat"], float) or abs(r["stat"] - st) > slack:
        bad("statistic", "chi-squared statistic %s, expected %s +- %s" % (r["stat"], st, slack))
    elif not near(r["p"], upper(r["stat"], len(exp) - 1), 1e-6):
        bad("p-value", "p-value %s of statistic %s with %d buckets, expected %s" % (r["p"], r["stat"], len(exp), upper(r["stat"], len(exp) - 1)))
    if r["valid"] != (r["outlier"] == 0 and isinstance(r["p"], float) and r["p"] > PMIN):
        bad("verdict", "valid = %s with %d outliers and p-value %s" % (r["valid"], r["outlier"], r["p"]))
    if full:
        for x in ("%d" % len(v), "%.5f" % m, "%.5f" % math.sqrt(var), "valid? %s" % r["valid"], "outliers? %d" % r["outlier"]):
            if x not in r["text"]:
                bad("text", "the printed report lacks %r: %s" % (x, r["text"][:400]))
    return obs, exp


def univariate(w, count, part):
    rng = w.rng
    d = Driver()
    tally = {}
    for i in range(count):
        mu = rng.choice([0, rng.randrange(-5, 6), rng.randrange(-9, 9) + .5, rng.uniform(-1, 1), rng.uniform(-40, 40), rng.uniform(0, 12289)])
        s = rng.choice([rng.uniform(1.2, 1.9), rng.uniform(1.2, 1.9), rng.uniform(1.9, 12), rng.uniform(100, 170)])
        n = rng.choice([200, 1000, 1000, 3000, 10000])
        if s > 50 and n < 1000:
            n = 1000
        kind = rng.choice(["good", "good", "good", "outlier", "shift", "wide", "gap", "half"])
        v = draw(rng, mu, s, n)
        if kind == "outlier":
            for _ in range(rng.randrange(1, 4)):
                sp = span(mu, s)
                v[rng.randrange(n)] = rng.choice([sp[0] - 1, sp[-1] + 1, sp[-1] + rng.randrange(1, 1000), sp[0] - rng.randrange(1, 10 ** 6)])
        elif kind == "shift":
            t = rng.choice([-1, 1]) * math.ceil(s * rng.uniform(.5, 1.5))
            v = [x + t if mu - 12 * s < x < mu + 12 * s else x for x in v]
        elif kind == "wide":
            v = draw(rng, mu, s * rng.choice([.6, 1.5]), n)
            v = [x for x in v if x in span(mu, s)] or [round(mu)]
            v = (v * (n // len(v) + 1))[:n]
        elif kind == "gap":
            v = [x + (1 if x % 2 else 0) if x + 1 in span(mu, s) else x for x in v]
        elif kind == "half":
            v = [x if x >= mu else math.ceil(mu) + abs(math.floor(mu) - x) for x in v]
            v = [x if x in span(mu, s) else math.ceil(mu) for x in v]
        case = {"mu": mu, "sigma": s, "kind": kind, "samples": v if n <= 1000 else v[:1000]}
        w.now(case)
        w.case((mu, s, n, kind))
        r = d.ask(what="uni", mu=mu, sigma=s, samples=v)
        w.ev("lists_" + kind)
        if "error" in r:
            w.violation("exception", "%d samples (%s), centre %r, deviation %r: %s" % (n, kind, mu, s, r["error"]), dict(case, trace=r["trace"]))
            continue
        judge_uni(w, mu, s, v, r, case)
        if not r["kept"]:
            w.violation("changed", "the samples are changed", case)
        tally.setdefault(kind, []).append(bool(r["valid"]))
        if i % 10 == 0:
            t = d.ask(what="pdt", mu=mu, sigma=s)
            e = pdt(mu, s)
            w.ev("tables")
            if "error" in t or [k for k, _ in t["pdt"]] != list(e) or not all(near(x, e[k], 1e-12) for k, x in t["pdt"]):
                w.violation("table", "make_gaussian_pdt(%r, %r) is wrong: %s" % (mu, s, str(t)[:200]), case)
    g = tally.get("good", [])
    if len(g) >= 40 and g.count(False) > 5 + .02 * len(g):
        w.violation("rejects", "%d of %d lists of true samples are called invalid" % (g.count(False), len(g)), {"good": len(g)})
    w.sample({"verdicts": {k: [x.count(True), x.count(False)] for k, x in tally.items()}})


# ---- several dimensions; plain Python linear algebra

def doornik(v):
    """The statistic of Doornik and Hansen (2008) and its asymptotic version, with numpy's eigenvectors for one matrix root."""
    import subprocess
    n, p = len(v), len(v[0])
    mean = [math.fsum(r[i] for r in v) / n for i in range(p)]
    C = [[math.fsum((r[i] - mean[i]) * (r[j] - mean[j]) for r in v) / n for j in range(p)] for i in range(p)]
    sd = [math.sqrt(C[i][i]) for i in range(p)]
    R = [[C[i][j] / (sd[i] * sd[j]) for j in range(p)] for i in range(p)]
    # inverse square root by the coupled Newton iteration
    mul = lambda A, B: [[math.fsum(A[i][k] * B[k][j] for k in range(p)) for j in range(p)] for i in range(p)]
    Y, Z = R, [[float(i == j) for j in range(p)] for i in range(p)]
    for _ in range(60):
        T = mul(Z, Y)
        T = [[((3.0 if i == j else 0.0) - T[i][j]) / 2 for j in range(p)] for i in range(p)]
        Y, Z = mul(Y, T), mul(T, Z)
    rows = [[(r[i] - mean[i]) / sd[i] for i in range(p)] for r in v]
    y = [[math.fsum(r[k] * Z[k][j] for k in range(p)) for j in range(p)] for r in rows]
    b1 = [math.fsum(r[j] ** 3 for r in y) / n for j in range(p)]
    b2 = [math.fsum(r[j] ** 4 for r in y) / n for j in range(p)]
    beta = 3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = -1 + math.sqrt(2 * (beta - 1))
    z1 = [math.asinh(b * math.sqrt((w2 - 1) / 2 * (n + 1) * (n + 3) / (6 * (n - 2)))) / math.sqrt(math.log(math.sqrt(w2))) for b in b1]
    de = (n - 3) * (n + 1) * (n * n + 15 * n - 4)
    a = (n - 2) * (n + 5) * (n + 7) * (n * n + 27 * n - 70) / (6 * de)
    c = (n - 7) * (n + 5) * (n + 7) * (n * n + 2 * n - 5) / (6 * de)
    k = (n + 5) * (n + 7) * (n ** 3 + 37 * n * n + 11 * n - 313) / (12 * de)
    z2 = []
    for s, t in zip(b1, b2):
        al = a + s * s * c
        x = (t - 1 - s * s) * 2 * k
        z2.append(((x / (2 * al)) ** (1 / 3) - 1 + 1 / (9 * al)) * math.sqrt(9 * al))
    return math.fsum(x * x for x in z1 + z2), math.fsum(n / 6 * s * s + n / 24 * (t - 3) ** 2 for s, t in zip(b1, b2))


def diagonals(cov, n):
    """P-value of the sums along the diagonals of the quarters, as its description says."""
    h = len(cov) // 2
    s = 0.0
    for i in range(1, h):
        for r, c in ((0, i), (h, h + i), (0, h + i), (i, h)):
            t = math.fsum(cov[r + j][c + j] for j in range(h - i))
            s += t * t * n / (h - i)
    return s


def multivariate(w, count, part):
    rng = w.rng
    d = Driver()
    tmp = tempfile.mkdtemp(prefix="saga-", dir=build.scratch())
    for i in range(count):
        dim = rng.choice([2, 4, 4, 8, 8, 16])
        n = rng.choice([300, 500, 1000])
        s = rng.choice([rng.uniform(1.3, 2), rng.uniform(3, 40), 165.7])
        n = max(n, 1000) if s > 50 else n
        kind = rng.choice(["good", "good", "good", "tied", "shape", "moved"])
        v = [draw(rng, 0, s, n) for _ in range(dim)]
        if kind == "tied":
            a, b = rng.sample(range(dim), 2)
            v[b] = [x if rng.random() < .5 else y for x, y in zip(v[a], v[b])]
            h = dim // 2
            if rng.random() < .5 and h > 1:
                for j in range(1, h):        # a whole diagonal of one quarter
                    v[j] = [x if rng.random() < .4 else y for x, y in zip(v[j - 1], v[j])]
        elif kind == "shape":
            v[0] = [round(rng.uniform(-1.7 * s, 1.7 * s)) for _ in range(n)]
        elif kind == "moved":
            v[0] = [x + 1 for x in v[0]]
        rows = [list(t) for t in zip(*v)]
        case = {"sigma": s, "dim": dim, "n": n, "kind": kind, "samples": rows[:100]}
        w.now(case, cpu=300)
        w.case((s, dim, n, kind, i))
        r = d.ask(what="multi", sigma=s, samples=rows)
        w.ev("tables_" + kind)
        if "error" in r:
            if any(x not in span(0, s) for c in v for x in c) and kind == "moved":
                w.ev("outside")
            w.violation("exception", "%d samples of dimension %d (%s): %s" % (n, dim, kind, r["error"]), dict(case, trace=r["trace"]))
            continue
        if (r["n"], r["dim"]) != (n, dim) or not near(r["sigma"], s):
            w.violation("shape", "n, dim, sigma are %s, %s, %s" % (r["n"], r["dim"], r["sigma"]), case)
        m = [math.fsum(c) / n for c in v]
        cov = [[math.fsum((x - m[a]) * (y - m[b]) for x, y in zip(v[a], v[b])) / (n - 1) / s ** 2 for b in range(dim)] for a in range(dim)]
        off = max(abs(x - y) if isinstance(x, float) else 9 for p, q in zip(r["cov"], cov) for x, y in zip(p, q))
        if off > 1e-9:
            w.violation("covariance", "the covariance matrix is off by %s" % off, case)
        st = diagonals(cov, n)
        want = upper(st, 4 * (dim // 2 - 1)) if dim > 2 else None
        if want is not None:
            w.ev("diagonals")
            if not near(r["dc"], want, 1e-6):
                w.violation("diagonals", "p-value of the diagonals %s, expected %s" % (r["dc"], want), case)
        dh, as_ = doornik(rows)
        w.ev("normality")
        for k, x, p in (("DH", dh, "PO"), ("AS", as_, "PA")):
            if not near(r[k], x, 1e-6):
                w.violation("normality", "%s statistic %s, expected %s" % (k, r[k], x), case)
            elif not near(r[p], upper(x, 2 * dim), 1e-5):
                w.violation("normality", "p-value %s of %s statistic %s, expected %s" % (r[p], k, x, upper(x, 2 * dim)), case)
        for j in range(dim):
            judge_uni(w, 0, s, v[j], r["uni"][j], dict(case, coordinate=j), full=False)
        g = sum(isinstance(u["p"], float) and u["p"] > PMIN for u in r["uni"])
        if r["good"] != g or "%d out of %d" % (g, dim) not in r["text"]:
            w.violation("coordinates", "%s Gaussian coordinates reported, there are %d" % (r["good"], g), case)
        for x in ("%d" % dim, "%.3f" % s, "%d" % n, "%.4f" % r["PO"], "%.4f" % r["dc"] if dim > 2 else ""):
            if x not in r["text"]:
                w.violation("text", "the printed report lacks %r: %s" % (x, r["text"][:600]), case)
        if rng.random() < .3:
            rows = rows[:rng.randrange(1, 6)]
            n = len(rows)
        path = os.path.join(tmp, "t")
        open(path, "w").write("".join("".join("%d, " % x for x in t)[:-1] + "\n" for t in rows))
        f = d.ask(what="file", path=path)
        w.ev("files")
        e = math.sqrt(sum(x * x for t in rows for x in t) / (n * dim))
        if "error" in f or f["data"] != rows or not near(f["sigma"], e):
            w.violation("file", "a file of %d samples of dimension %d is read as %s" % (n, dim, str(f)[:200]), case)
    shutil.rmtree(tmp)


def plan(R):
    q = R.quick
    return [("univariate", dict(count=400 if q else 6000, part=p)) for p in range(4)] + \
           [("multivariate", dict(count=30 if q else 500, part=p)) for p in range(4)]


if __name__ == "__main__":
    pool.check("P13", "one list or table of samples", {"univariate": univariate, "multivariate": multivariate}, plan,
               {"statistics": 300, "lists_good": 80, "lists_outlier": 20, "lists_shift": 20, "tables": 20, "tables_good": 8, "diagonals": 15, "normality": 20, "files": 20},
               ["pandas and matplotlib are not installed: small stand-ins take their place; scipy and numpy are the installed ones"])
