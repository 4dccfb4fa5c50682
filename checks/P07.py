"""P07: the FFT domain of the Python reference is ring arithmetic, its tree is the Gram-Schmidt basis, and signatures
are the nearest-plane samples the specification asks for, at every degree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, pykeys, pyref, pyspec, pygauss, ref
from vh.ref import Q

DEG = pyspec.DEGREES


def conv(a, b):
    """Product modulo x^n+1 over the reals (or integers), directly."""
    n = len(a)
    c = np.convolve(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    c = np.concatenate([c, np.zeros(2 * n - len(c))])
    return c[:n] - c[n:]


def adjoint(a):
    return [a[0]] + [-v for v in a[:0:-1]]


def near(w, key, what, got, want, case, scale=None, tol=1e-11):
    got, want = np.asarray(got), np.asarray(want)
    w.ev("compared")
    sc = max(1e-300, float(np.max(np.abs(want))) if scale is None else scale)
    d = float(np.max(np.abs(got - want))) / sc if got.shape == want.shape else np.inf
    if not d <= tol * len(want.reshape(-1)):
        w.violation(key, "%s is off by %g (relative)" % (what, d), case)
        return False
    return True


def poly(r, n):
    k = r.randrange(6)
    if k == 0:
        return [r.choice([0, 1, -1]) for _ in range(n)]
    if k == 1:
        p = [0] * n
        p[r.randrange(n)] = r.choice([1, -1, 5, 1000])
        return p
    if k == 2:
        return [r.gauss(0, 1) for _ in range(n)]
    return [r.randint(-m, m) for m in [r.choice([10, 127, Q, 1 << 40])] for _ in range(n)]


def ops(w, count):
    import fft as T
    r = w.rng
    for n in DEG:
        x = [0.0, 1.0] + [0.0] * (n - 2)
        roots = np.asarray(T.fft(x))
        w.ev("roots")
        if len(set(np.round(np.angle(roots) * 2 * n / np.pi).astype(int))) != n or np.max(np.abs(roots ** n + 1)) > 1e-10:
            w.violation("roots", "fft(x) are not the %d roots of x^n+1" % n, {"n": n})
            continue
        if n > 2 and np.max(np.abs(roots[::2] + roots[1::2])) > 1e-12:
            w.violation("roots", "the roots are not paired for split and merge at degree %d" % n, {"n": n})
        V = roots[:, None] ** np.arange(n)[None, :]
        for i in range(count if n < 256 else max(3, count // 4)):
            a, b = poly(r, n), poly(r, n)
            case = {"n": n, "a": a[:64], "b": b[:64]}
            w.now(case)
            w.case(repr((a, b)))
            A, B = T.fft(list(a)), T.fft(list(b))
            sa, sb = sum(map(abs, a)) + 1e-9, sum(map(abs, b)) + 1e-9
            near(w, "fft", "fft at degree %d" % n, A, V @ np.asarray(a, dtype=float), case, sa)
            near(w, "ifft", "ifft(fft(a)) at degree %d" % n, T.ifft(list(A)), a, case, sa)
            near(w, "add", "add", T.add(a, b), np.asarray(a, dtype=float) + b, case)
            near(w, "sub", "sub", T.sub(a, b), np.asarray(a, dtype=float) - b, case, sa + sb)
            near(w, "neg", "neg", T.neg(a), [-v for v in a], case)
            near(w, "add", "add_fft", T.add_fft(A, B), np.asarray(A) + B, case, sa + sb)
            near(w, "sub", "sub_fft", T.sub_fft(A, B), np.asarray(A) - B, case, sa + sb)
            ab = conv(a, b)
            near(w, "mul", "mul at degree %d" % n, T.mul(a, b), ab, case, sa * sb)
            near(w, "mul", "ifft of mul_fft at degree %d" % n, T.ifft(T.mul_fft(A, B)), ab, case, sa * sb)
            near(w, "adj", "adj at degree %d" % n, T.adj(a), adjoint(a), case, sa)
            near(w, "adj", "ifft of adj_fft at degree %d" % n, T.ifft(T.adj_fft(A)), adjoint(a), case, sa)
            lo = float(np.min(np.abs(V @ np.asarray(b, dtype=float))))
            if lo > 1e-6 * sb:
                near(w, "div", "div(a*b, b) at degree %d" % n, T.div(list(ab), b), a, case, sa * (sb / lo) ** 1)
                near(w, "div", "ifft of div_fft at degree %d" % n, T.ifft(T.div_fft(T.fft(list(ab)), B)), a, case, sa * (sb / lo))
            if n > 2:
                h0, h1 = T.split_fft(A)
                near(w, "split", "split_fft at degree %d" % n, h0, T.fft(a[::2]), case, sa)
                near(w, "split", "split_fft at degree %d" % n, h1, T.fft(a[1::2]), case, sa)
                near(w, "merge", "merge_fft(split_fft) at degree %d" % n, T.merge_fft([h0, h1]), A, case, sa)
                from common import split, merge, sqnorm
                if split(a) != [a[::2], a[1::2]] or merge(split(a)) != a:
                    w.violation("split", "split or merge of coefficients is wrong", case)
                near(w, "sqnorm", "sqnorm", [float(sqnorm([a, b]))], [sum(v * v for v in a) + sum(v * v for v in b)], case)


def leaves(T):
    if len(T) == 3 and isinstance(T[1][0], (list, tuple)):
        return leaves(T[1]) + leaves(T[2])
    if len(T) == 3:
        return [T[1][0], T[2][0]]
    return [T[0]]


def trees(w, count):
    """LDL, the trees and the nearest plane, on bases of any kind."""
    import fft as T
    import ffsampling as S
    r = w.rng
    for i in range(count):
        n = r.choice([2, 4, 8, 16, 32, 64])
        while True:
            M = [[[r.randint(-9, 9) for _ in range(n)] for _ in range(2)] for _ in range(2)]
            if r.random() < .3:
                f, g, F, G = pykeys.polys(n, r)
                M = [[g, [-v for v in f]], [G, [-v for v in F]]]
            B = pygauss.Basis([tuple(M[0]), tuple(M[1])])
            if B.nn.min() > 1e-4 * B.nn.max():
                break
        case = {"n": n, "basis": M}
        w.now(case)
        w.case(repr(M))
        w.ev("trees")
        Gm = S.gram([[list(p) for p in row] for row in M])
        for a in range(2):
            for b in range(2):
                want = sum(conv(M[a][k], adjoint(M[b][k])) for k in range(2))
                near(w, "gram", "gram", Gm[a][b], want, case, float(np.max(np.abs(B.nn))) * n)
        big = float(np.max(B.nn)) * n
        cond = float(np.max(B.nn) / np.min(B.nn))
        L, D = S.ldl([[list(p) for p in row] for row in Gm])
        # L D L* = G
        near(w, "ldl", "L10*D00", conv(L[1][0], D[0][0]), Gm[1][0], case, big, 1e-10 * cond)
        near(w, "ldl", "D00", D[0][0], Gm[0][0], case, big)
        near(w, "ldl", "D11 + L10 D00 L10*", np.asarray(D[1][1]) + conv(conv(L[1][0], adjoint(L[1][0])), D[0][0]), Gm[1][1], case, big, 1e-10 * cond ** 2)
        Gf = [[T.fft(list(p)) for p in row] for row in Gm]
        Lf, Df = S.ldl_fft([[list(p) for p in row] for row in Gf])
        near(w, "ldl", "ldl_fft L10", T.ifft(Lf[1][0]), L[1][0], case, None if np.max(np.abs(L[1][0])) > 1e-3 else 1., 1e-9 * cond)
        near(w, "ldl", "ldl_fft D11", T.ifft(Df[1][1]), D[1][1], case, big, 1e-10 * cond ** 2)
        for nm, m in (("L", L), ("D", D)):
            x = m[0][1]
            if any(abs(v) > 1e-12 for v in x):
                w.violation("ldl", "the upper triangle of %s is not zero" % nm, case)
        T0 = S.ffldl([[list(p) for p in row] for row in Gm])
        T1 = S.ffldl_fft([[list(p) for p in row] for row in Gf])
        want = B.nn[::2]
        near(w, "tree", "squared norms of the tree", [float(np.real(v)) for v in leaves(T1)], want, case, float(np.max(want)), 1e-10 * cond)
        near(w, "tree", "squared norms of the tree (coefficients)", [float(np.real(v)) for v in leaves(T0)], want, case, float(np.max(want)), 1e-10 * cond)
        for k in range(4):
            t = [[r.gauss(0, r.choice([1, 50, 3000])) for _ in range(n)] for _ in range(2)]
            if k == 0:
                t = [[float(round(v)) for v in p] for p in t]
            target = np.concatenate([conv(t[0], M[0][0]) + conv(t[1], M[1][0]), conv(t[0], M[0][1]) + conv(t[1], M[1][1])])
            tie = [False]

            def pick(mu, i):
                v = int(np.rint(mu))
                if abs(abs(mu - np.floor(mu)) - .5) < 1e-6:
                    tie[0] = True
                return v
            z = B.walk(target, pick)
            if tie[0]:
                w.ev("ties")
                continue
            z0 = S.ffnp([list(p) for p in t], T0)
            z1 = S.ffnp_fft([T.fft(list(p)) for p in t], T1)
            z1 = [[round(v) for v in T.ifft(p)] for p in z1]
            w.ev("nearest-planes")
            c2 = {"n": n, "basis": M, "t": t}
            if [[int(v) for v in p] for p in z0] != z:
                w.violation("ffnp", "ffnp is not Babai's nearest plane on the tree's basis", c2)
            if z1 != z:
                w.violation("ffnp", "ffnp_fft is not Babai's nearest plane on the tree's basis", c2)


def samples(w, n, keys, count):
    """Whole signatures and preimages against the model."""
    from falcon import SecretKey
    from scripts.sign_KAT import sign_KAT  # noqa: F401
    r = w.rng
    for i in range(keys):
        key = pykeys.polys(n, r)
        with pyref.quiet():
            K = SecretKey(n, [list(p) for p in key])
        B = pygauss.basis(key)
        sd = pygauss.SIGMA[n] / np.sqrt(B.nn[::2])
        near(w, "deviations", "deviations of the tree at degree %d" % n, [float(np.real(v)) for v in leaves(K.T_fft)], sd, {"n": n, "key": key}, None, 1e-11)
        w.ev("keys")
        for j in range(count):
            point = [r.randrange(Q) for _ in range(n)] if r.random() < .9 else [r.choice([0, Q - 1])] * n
            seed = r.randbytes(56)
            case = {"n": n, "key": key, "point": point, "seed": seed}
            w.now({"n": n, "point": point, "seed": seed})
            try:
                want = pygauss.preimage(key, B, point, pygauss.ChaCha(seed).read)
            except pygauss.Close:
                w.ev("too-close")
                continue
            s = K.sample_preimage_with_prng(list(point), pygauss.ChaCha(seed).read)
            w.ev("preimages")
            w.case(("p", n, seed))
            if [[int(v) for v in p] for p in s] != [list(map(int, p)) for p in want]:
                w.violation("preimage", "at degree %d, sample_preimage is not the specified sample" % n, case)
                continue
            if n <= 64 or j == 0:
                seed = r.randbytes(48)
                try:
                    want = pygauss.preimage(key, B, point, pygauss.Stream(seed).read)
                except pygauss.Close:
                    continue
                s = K.sample_preimage(list(point), seed=seed)
                w.ev("seeded-preimages")
                if [[int(v) for v in p] for p in s] != [list(map(int, p)) for p in want]:
                    w.violation("preimage-seed", "at degree %d, sample_preimage(seed) is not the specified sample" % n, dict(case, seed=seed))
            if n < 4:
                continue
            name = r.choice(["KeccakPRNG", "KeccaXOF"] + (["SHAKE"] if n <= 128 else []))
            msg, tape = r.randbytes(r.randrange(200)), r.randbytes(88)
            c = pyspec.h2p(name, tape[:40], msg, n)
            st = pygauss.Stream(tape[40:])
            rounds = 0
            try:
                while True:
                    rounds += 1
                    s0, s1 = pygauss.preimage(key, B, c, pygauss.ChaCha(st.read(56)).read)
                    if ref.norm2(s0, s1) <= pyspec.BOUND[n]:
                        want = pyspec.sig_of(n, tape[:40], s1)
                        if want is not None:
                            break
            except pygauss.Close:
                w.ev("too-close")
                continue
            pos = [0]

            def rb(k):
                o = tape[pos[0]:pos[0] + k]
                pos[0] += k
                return o
            sig, e = pyref.call(K.sign, msg, randombytes=rb, xof=pyref.xof(name))
            w.ev("signatures")
            w.ev("retries", rounds - 1)
            w.case(("s", n, tape))
            if sig != want:
                w.violation("signature", "at degree %d, the signature from given random bytes is not the specified one (%r, %d rounds)" % (n, e, rounds),
                            {"n": n, "key": key, "msg": msg, "tape": tape, "xof": name})
    w.sample({"n": n, "deviations": [float(x) for x in sd[:4]], "preimage": want[:45].hex() if isinstance(want, bytes) else None})


def plan(R):
    k = 2 if R.quick else 40
    t = [("ops", dict(count=12 * k, part=p)) for p in range(2)]
    t += [("trees", dict(count=25 * k, part=p)) for p in range(3)]
    for n in DEG:
        t.append(("samples", dict(n=n, keys=(8 if n <= 64 else 3 if n < 512 else 2) * k, count=12 if n <= 64 else 5)))
    t.sort(key=lambda x: -x[1].get("n", 0))
    return t


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("P07", "one array, tree, preimage or signature compared with the model; distinct by operands or random bytes",
               {f.__name__: strip(f) for f in (ops, trees, samples)}, plan,
               {"roots": 20, "compared": 3000, "trees": 70, "nearest-planes": 200, "preimages": 400, "seeded-preimages": 300, "signatures": 300, "retries": 1},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)",
                "cases whose outcome hangs on a relative difference of 1e-8 in a rejection threshold are skipped and counted (too-close)"])
