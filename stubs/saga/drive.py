"""Runs pythonref/scripts/saga.py on the lists of numbers it is sent; one JSON line per call."""
import contextlib, io, json, math, os, sys, traceback, warnings
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(sys.argv[1], "pythonref")]
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
from scripts import saga


def num(x):
    x = float(x)
    return x if math.isfinite(x) else repr(x)


def uni(u):
    return {"mu": num(u.exp_mu), "sigma": num(u.exp_sigma), "n": int(u.nsamples), "mean": num(u.mean), "variance": num(u.variance), "stdev": num(u.stdev),
            "skewness": num(u.skewness), "kurtosis": num(u.kurtosis), "outlier": int(u.outlier), "valid": bool(u.is_valid),
            "stat": num(u.chi2_stat), "p": num(u.chi2_pvalue), "histogram": [[int(k), int(v)] for k, v in u.histogram.items()], "text": repr(u)}


def one(q):
    what, samples = q["what"], q.get("samples")
    keep = json.dumps(samples)
    if what == "uni":
        r = uni(saga.UnivariateSamples(q["mu"], q["sigma"], samples))
    elif what == "multi":
        m = saga.MultivariateSamples(q["sigma"], samples)
        r = {"n": int(m.nsamples), "dim": int(m.dim), "sigma": num(m.exp_si), "cov": [[num(x) for x in row] for row in m.covariance], "DH": num(m.DH), "AS": num(m.AS),
             "PO": num(m.PO), "PA": num(m.PA), "dc": num(m.dc_pvalue), "good": int(m.nb_gaussian_coord), "uni": [uni(u) for u in m.univariates], "text": repr(m)}
    elif what == "file":
        s, d = saga.parse_multivariate_file(q["path"])
        r = {"sigma": num(s), "data": d}
    else:
        r = {"pdt": [[int(k), num(v)] for k, v in saga.make_gaussian_pdt(q["mu"], q["sigma"]).items()]}
    r["kept"] = json.dumps(samples) == keep
    return r


for line in sys.stdin:
    try:
        r = one(json.loads(line))
    except Exception as e:
        r = {"error": repr(e)[:300], "trace": traceback.format_exc()[-600:]}
    out.write(json.dumps(r) + "\n")
    out.flush()
