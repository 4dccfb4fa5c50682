"""C14: the FFT-domain polynomial algebra under signing and key generation is ring arithmetic modulo x^N+1."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np, math
from vh import build, pool
from vh.cfalcon import Lib, d2u
import ctypes as C


def arr(v):
    v = np.ascontiguousarray(v, dtype=np.float64)
    return (C.c_uint64 * len(v)).from_buffer_copy(v.tobytes())


def back(a):
    return np.frombuffer(bytes(a), dtype=np.float64).copy()


def cplx(a):
    v = back(a) if not isinstance(a, np.ndarray) else a
    h = len(v) // 2
    return v[:h] + 1j * v[h:]


def flat(z):
    return np.concatenate([z.real, z.imag])


def negmul(a, b):
    """Exact product modulo x^n+1 for integer vectors (object arithmetic is not needed: |.| < 2^52)."""
    n = len(a)
    c = np.convolve(a, b)
    r = c[:n].copy()
    r[:len(c) - n] -= c[n:]
    return r


def algebra(w, san, logn, n, part):
    L = Lib("shake", san)
    Z = L.Z
    nprng = np.random.default_rng(w.rng.getrandbits(64))
    rng = w.rng
    N = 1 << logn
    hn = N // 2
    # the points: FFT of the polynomial x
    x = np.zeros(N)
    x[1] = 1
    a = arr(x)
    Z("FFT")(a, logn)
    roots = cplx(a)
    ang = np.angle(roots) * N / math.pi
    odd = np.round(ang).astype(int)
    if np.max(np.abs(np.abs(roots) - 1)) > 1e-12 or np.max(np.abs(ang - odd)) > 1e-9 * N or np.any(odd % 2 == 0) or len({abs(o) for o in odd}) != hn:
        w.violation("roots", "logn %d: the transform's points are not one of each conjugate pair of the roots of x^N+1" % logn, {"logn": logn})
        return
    # natural evaluation matrix through exact angles
    V = np.exp(1j * np.pi * np.outer(odd, np.arange(N)) / N)

    def poly():
        k = rng.randrange(5)
        if k == 0:
            p = nprng.integers(-127, 128, N).astype(float)
        elif k == 1:
            p = nprng.normal(0, 165, N)
        elif k == 2:
            p = nprng.integers(0, 12289, N).astype(float)
        elif k == 3:
            p = np.zeros(N)
            p[rng.randrange(N)] = rng.choice([1.0, -1.0, 12288.0, 0.5])
        else:
            p = np.rint(nprng.normal(0, 2 ** rng.randrange(1, 22), N))
        return p

    def tf(p):
        b = arr(p)
        Z("FFT")(b, logn)
        return b

    def chk(name, got, exp, scale=None, tol=2.0 ** -40, desc=None):
        s = float(np.max(np.abs(exp))) if scale is None else scale
        s = max(s, 1e-300)
        w.ev(name)
        e = float(np.max(np.abs(got - exp))) / s
        if not e <= tol:
            w.violation(name, "logn %d: %s is off by %.3g of its scale" % (logn, name, e), desc)
    for it in range(n):
        p, q, r, t = poly(), poly(), poly(), poly()
        desc = {"logn": logn, "p": p[:64].tolist(), "q": q[:64].tolist(), "it": it, "part": part}
        w.now({"logn": logn, "it": it, "part": part})
        w.case((logn, p.tobytes(), q.tobytes()))
        sp = float(np.sum(np.abs(p))) or 1.0
        fp, fq, fr, ft = tf(p), tf(q), tf(r), tf(t)
        P, Q_, R_, T = V @ p, V @ q, V @ r, V @ t
        chk("FFT", cplx(fp), P, sp, desc=desc)
        b = arr(back(fp))
        Z("iFFT")(b, logn)
        chk("iFFT", back(b), p, sp, desc=desc)
        # inverse alone, on an arbitrary spectrum
        S = nprng.normal(0, 1, hn) + 1j * nprng.normal(0, 1, hn)
        b = arr(flat(S))
        Z("iFFT")(b, logn)
        chk("iFFT-alone", V @ back(b), S, desc=desc)
        for name, e in (("poly_add", P + Q_), ("poly_sub", P - Q_), ("poly_mul_fft", P * Q_), ("poly_muladj_fft", P * Q_.conj()),
                        ("poly_div_fft", None)):
            A, B = (cplx(fp), cplx(fq))
            if name == "poly_div_fft":
                if np.min(np.abs(B)) < 1e-3:
                    continue
                e = A / B
                b, d = arr(flat(A)), arr(flat(B))
                Z(name)(b, d, logn)
                chk(name, cplx(b) / e if np.all(np.abs(e) > 1e-9) else cplx(b), np.ones(hn) if np.all(np.abs(e) > 1e-9) else e, desc=desc)
                continue
            b, d = arr(back(fp)), arr(back(fq))
            Z(name)(b, d, logn)
            sc = max(float(np.max(np.abs(A))) * max(1.0, float(np.max(np.abs(B)))), 1.0) * N
            chk(name, cplx(b), e, sc, desc=desc)
            if bytes(d) != bytes(fq):
                w.violation("operand", "%s changes its second operand" % name, desc)
        b = arr(back(fp)); Z("poly_neg")(b, logn); chk("poly_neg", cplx(b), -cplx(fp), desc=desc)
        b = arr(back(fp)); Z("poly_adj_fft")(b, logn); chk("poly_adj_fft", cplx(b), cplx(fp).conj(), desc=desc)
        Z("iFFT")(b, logn)
        adj = np.concatenate([p[:1], -p[:0:-1]])
        chk("adjoint", back(b), adj, sp, desc=desc)
        b = arr(back(fp)); Z("poly_mulselfadj_fft")(b, logn); chk("poly_mulselfadj_fft", cplx(b), np.abs(cplx(fp)) ** 2 + 0j, desc=desc)
        k = rng.choice([0.5, -1.0, 12289.0, 1 / 12289, rng.uniform(-9, 9)])
        b = arr(back(fp)); Z("poly_mulconst")(b, d2u(k), logn); chk("poly_mulconst", cplx(b), k * cplx(fp), desc=desc)
        A, B, D, E = (cplx(z) for z in (fp, fq, fr, ft))
        if np.min(np.abs(A) ** 2 + np.abs(B) ** 2) > 1e-3:
            o = arr(np.zeros(N))
            Z("poly_invnorm2_fft")(o, fp, fq, logn)
            e = 1 / (np.abs(A) ** 2 + np.abs(B) ** 2)
            chk("poly_invnorm2_fft", back(o)[:hn] / e, np.ones(hn), desc=desc)
        o = arr(np.zeros(N))
        Z("poly_add_muladj_fft")(o, fp, fq, fr, ft, logn)
        e = A * D.conj() + B * E.conj()
        chk("poly_add_muladj_fft", cplx(o), e, float(np.max(np.abs(A) * np.abs(D) + np.abs(B) * np.abs(E))), desc=desc)
        g = np.abs(nprng.normal(5, 2, hn)) + .1
        b = arr(back(fp)); gg = arr(np.concatenate([g, np.full(N - hn, 7.0)]))
        Z("poly_mul_autoadj_fft")(b, gg, logn); chk("poly_mul_autoadj_fft", cplx(b), A * g, desc=desc)
        b = arr(back(fp)); Z("poly_div_autoadj_fft")(b, gg, logn); chk("poly_div_autoadj_fft", cplx(b), A / g, desc=desc)
        # exact ring product of integers through the transform
        u, v = nprng.integers(-127, 128, N).astype(float), nprng.integers(-2000, 2000, N).astype(float)
        fu, fv = tf(u), tf(v)
        Z("poly_mul_fft")(fu, fv, logn)
        Z("iFFT")(fu, logn)
        w.ev("ring_product")
        if not np.array_equal(np.rint(back(fu)), negmul(u, v)):
            w.violation("ring_product", "logn %d: rounded product of integer polynomials is not their product modulo x^N+1" % logn, desc)
        # LDL of a Gram matrix, both forms
        g00 = np.abs(A) ** 2 + np.abs(B) ** 2 + 1.0
        g01 = A * D.conj() + B * E.conj()
        g11 = np.abs(D) ** 2 + np.abs(E) ** 2 + 1.0
        l10 = g01.conj() / g00
        d11 = g11 - np.abs(g01) ** 2 / g00
        a00, a01, a11 = arr(flat(g00 + 0j)), arr(flat(g01)), arr(flat(g11 + 0j))
        Z("poly_LDL_fft")(a00, a01, a11, logn)
        chk("LDL-d00", cplx(a00), g00 + 0j, desc=desc)
        chk("LDL-l10", cplx(a01), l10, float(np.max(np.abs(l10))), desc=desc)
        chk("LDL-d11", cplx(a11), d11 + 0j, float(np.max(g11)), desc=desc)
        a00, a01, a11 = arr(flat(g00 + 0j)), arr(flat(g01)), arr(flat(g11 + 0j))
        o1, o2 = arr(np.zeros(N)), arr(np.zeros(N))
        s0 = bytes(a00) + bytes(a01) + bytes(a11)
        Z("poly_LDLmv_fft")(o1, o2, a00, a01, a11, logn)
        chk("LDLmv-l10", cplx(o2), l10, float(np.max(np.abs(l10))), desc=desc)
        chk("LDLmv-d11", cplx(o1), d11 + 0j, float(np.max(g11)), desc=desc)
        if s0 != bytes(a00) + bytes(a01) + bytes(a11):
            w.violation("operand", "LDLmv changes its inputs", desc)
        # split / merge
        f0, f1 = arr(np.zeros(max(hn, 1))), arr(np.zeros(max(hn, 1)))
        Z("poly_split_fft")(f0, f1, fp, logn)
        if logn > 1:
            e0, e1 = tf2(L, p[0::2], logn - 1), tf2(L, p[1::2], logn - 1)
            chk("split0", cplx(f0), cplx(e0), sp, desc=desc)
            chk("split1", cplx(f1), cplx(e1), sp, desc=desc)
        else:
            chk("split0", back(f0), p[0::2], sp, desc=desc)
            chk("split1", back(f1), p[1::2], sp, desc=desc)
        o = arr(np.zeros(N))
        Z("poly_merge_fft")(o, f0, f1, logn)
        chk("merge", cplx(o), cplx(fp), sp, desc=desc)
    w.sample({"logn": logn, "n": n})


def tf2(L, p, logn):
    b = arr(p)
    L.Z("FFT")(b, logn)
    return b


def plan(R):
    build.prepare("shake", "shake/asan")
    q = R.quick
    t = []
    for logn in range(10, 0, -1):
        n = 12 if logn >= 9 else 40
        t.append(("algebra", dict(san="", logn=logn, n=n if q else n * 40, part=0)))
        t.append(("algebra", dict(san="asan", logn=logn, n=3 if q else 20, part=1), "asan"))
    return t


if __name__ == "__main__":
    pool.check("C14", "one (degree, operand polynomials) tuple through all the operations", {"algebra": algebra}, plan,
               {"FFT": 300, "iFFT": 300, "poly_mul_fft": 300, "poly_div_fft": 30, "LDL-d11": 300, "LDLmv-d11": 300, "split0": 300,
                "merge": 300, "poly_invnorm2_fft": 100, "ring_product": 300},
               ["numpy's complex double arithmetic is the oracle; tolerance 2^-40 of the operands' scale"])
