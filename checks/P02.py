"""P02: the Python verifier accepts exactly what the Falcon predicate accepts."""
import math, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import pool, pyref, pyspec, ref
from vh.ref import Q


def one(w, n, h, msg, sig, xof, kind, X, ntts, pk=None):
    import falcon
    want, nn = pyspec.verdict(n, h, msg, sig, xof)
    case = dict(n=n, h=h if n <= 64 else None, msg=msg, sig=sig, xof=xof, kind=kind, want=want, norm=nn)
    w.now(case)
    T = ntts[w.rng.randrange(2)]
    v, e = pyref.call((pk or falcon.PublicKey(n, list(h))).verify, msg, sig, T, X)
    w.ev("want-" + want)
    w.ev("kind-" + kind.split(":")[0])
    w.case((n, sig, msg, xof))
    if want == "ok":
        if v is not True:
            w.violation("refuses-valid", "a valid signature is refused (%s, degree %d, %s, norm %s): %r %r" % (kind, n, xof, nn, v, e), case)
    elif v is not False and not (want == "too-long" and v is None and isinstance(e, ValueError)):
        key = "raises" if v is None else "accepts"
        w.violation(key, "verify %s: %r %r, should refuse (%s, %s, degree %d, %s, norm %s)" % (key, v, e, kind, want, n, xof, nn), case)
    if len(w.samples) < 3:
        w.sample({k: case[k] for k in ("n", "xof", "kind", "want", "norm")})


def forge(w, n, xof, count):
    from polyntt.ntt_iterative import NTTIterative
    from polyntt.ntt_recursive import NTTRecursive
    ntts = [NTTIterative, NTTRecursive]
    X = pyref.xof(xof)
    r = w.rng
    B = pyspec.BOUND[n]
    cap = pyspec.SIGLEN[n] - 41

    def go(msg, sig, h, kind):
        one(w, n, h, msg, sig, xof, kind, X, ntts)

    for i in range(count):
        msg, salt = r.randbytes(r.choice([0, 1, 32, r.randrange(200)])), r.randbytes(40)
        c = pyspec.h2p(xof, salt, msg, n)
        d = [0, 1, -1, 2, r.randrange(-1000, 1000), r.randrange(1000000), -r.randrange(1000)][i % 7]
        for _ in range(200):
            try:
                s0, s1, h = pyspec.forge(r, n, c, B + d, r.choice([.6, .8, .9]))
            except AssertionError:
                continue
            sig = pyspec.sig_of(n, salt, s1)
            if sig is not None:
                break
        else:
            w.ev("no-forgery")
            continue
        go(msg, sig, h, "bound:%d" % d)
        # the same content written differently
        e = pyspec.comp(s1)
        tight = pyspec.bits2bytes(e)
        hd = pyspec.headers(n)
        for x in (hd[1], hd[0] ^ 1, 0, 0x40 + (hd[0] & 15), r.randrange(256)):
            go(msg, bytes([x]) + sig[1:], h, "header")
        go(msg, sig[:41] + tight, h, "unpadded")
        go(msg, sig[:41] + tight[:-1], h, "truncated")
        go(msg, sig + b"\0", h, "longer")
        go(msg, sig + b"\x80", h, "longer")
        if len(tight) < cap:
            p = bytearray(sig)
            p[r.randrange(41 + len(tight), 41 + cap)] ^= 1 << r.randrange(8)
            go(msg, bytes(p), h, "padding-byte")
        if len(e) % 8:
            p = bytearray(sig)
            p[41 + len(e) // 8] |= 1 << r.randrange(8 - len(e) % 8)
            go(msg, bytes(p), h, "padding-bit")
        z = [k for k, v in enumerate(s1) if v == 0]
        if not z:
            s2 = list(s1)
            s2[r.randrange(n)] = 0
            z = [k for k, v in enumerate(s2) if v == 0]
        else:
            s2 = s1
        k = r.choice(z)
        neg = pyspec.comp(s2[:k]) + "100000001" + pyspec.comp(s2[k + 1:])
        if len(neg) <= 8 * cap:
            hz = ref.invq(s2)
            if hz is not None:
                h0 = [int(v) for v in ref.mulq([a - b for a, b in zip(c, s0)], hz)]
                go(msg, bytes([hd[0]]) + salt + pyspec.bits2bytes(neg, cap), h0, "negative-zero")
                go(msg, bytes([hd[0]]) + salt + pyspec.bits2bytes(pyspec.comp(s2), cap), h0, "zero-coefficient")
        # an extra coefficient, one too few
        for s in (s1 + [r.randrange(-50, 50)], s1[:-1], s1[1:] + [0]):
            b = pyspec.comp(s)
            if len(b) <= 8 * cap:
                go(msg, bytes([hd[0]]) + salt + pyspec.bits2bytes(b, cap), h, "count")
        # single bits and bytes
        for _ in range(6):
            p = bytearray(sig)
            p[r.randrange(len(p))] ^= 1 << r.randrange(8)
            go(msg, bytes(p), h, "bit")
        for _ in range(2):
            p = bytearray(sig)
            a = r.randrange(41, len(p))
            p[a:a + r.randrange(1, 8)] = r.randbytes(r.randrange(1, 8))
            go(msg, bytes(p), h, "bytes")
        go(msg, sig[:r.randrange(len(sig))], h, "cut")
        go(msg + b"\0", sig, h, "message")
        if msg:
            go(msg[1:], sig, h, "message")
            go(msg[:-1], sig, h, "message")
        # salt and message boundary moved
        if msg:
            go(msg[1:], sig[:40] + msg[:1] + sig[41:], h, "boundary")
        go(msg, sig, [(v + (k == i % n)) % Q for k, v in enumerate(h)], "key")
        # the encodings of special vectors under a key that makes them short
        for s in ([0] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [-1]):
            b = pyspec.bits2bytes(pyspec.comp(s), cap)
            go(msg, bytes([hd[0]]) + salt + b, h if r.random() < .5 else [0] * n, "special")
        go(msg, sig[:41], h, "empty")
        go(msg, sig[:41] + b"\0" * cap, h, "zeros")
        go(msg, sig[:41] + b"\xff" * cap, h, "ones")
        go(msg, sig[:41] + b"\x80", h, "one-bit")
        go(msg, sig[:41] + tight[:r.randrange(len(tight))] + b"\x80", h, "one-bit")
        go(msg, r.randbytes(r.randrange(0, 60)), h, "random")
        # large coefficients: the norm must not wrap
        s = [r.choice([-1, 1]) * 128 * r.randrange(8 * (cap - (9 * n + 7) // 8) + 1) if k == 0 else 0 for k in range(n)]
        b = pyspec.comp(s)
        if len(b) <= 8 * cap:
            iv = ref.invq(s)
            hb = h if iv is None else [int(v) for v in ref.mulq(c, iv)]
            go(msg, bytes([hd[0]]) + salt + pyspec.bits2bytes(b, cap), hb, "large")
            # s + q*x^j satisfies the same equation
        s = list(s1)
        j = r.randrange(n)
        s[j] += Q if s[j] < 0 else -Q
        b = pyspec.comp(s)
        if len(b) <= 8 * cap:
            go(msg, bytes([hd[0]]) + salt + pyspec.bits2bytes(b, cap), h, "plus-q")
    w.ev("forgeries", count)


def walk(w, n, keys, steps, part):
    """Long-lived key objects asked in turn about signatures that share salts, messages, encodings or keys: every answer is
    that of the predicate, whatever was asked before."""
    import falcon
    from polyntt.ntt_iterative import NTTIterative
    from polyntt.ntt_recursive import NTTRecursive
    r = w.rng
    B = pyspec.BOUND[n]
    salts = [r.randbytes(40) for _ in range(2)]
    salts.append(salts[0][:39] + bytes([salts[0][39] ^ 1]))
    m0 = r.randbytes(50)
    msgs = [m0, m0[:49] + bytes([m0[49] ^ 1]), bytes([m0[0] ^ 1]) + m0[1:], m0[:49], m0 + b"\0", b""]
    P, items = [], []
    while len(P) < keys:
        xof, msg, salt = r.choice(pyspec.XOFS), r.choice(msgs), r.choice(salts)
        c = pyspec.h2p(xof, salt, msg, n)
        try:
            s0, s1, h = pyspec.forge(r, n, c, B - r.choice([0, 0, 1, 1000, B // 8, -1]), r.choice([.6, .8, .9]))
        except AssertionError:
            continue
        sig = pyspec.sig_of(n, salt, s1)
        if sig is None:
            continue
        P.append((h, falcon.PublicKey(n, list(h))))
        items.append((msg, sig, xof))
        if len(P) < keys:               # a key that differs in one coefficient only
            h2 = list(h)
            h2[r.choice([0, n - 1, r.randrange(n)])] += 1
            h2 = [v % Q for v in h2]
            P.append((h2, falcon.PublicKey(n, list(h2))))
            items.append((msg, sig, xof))
    for _ in range(steps):
        k = r.randrange(len(P))
        msg, sig, xof = items[k]
        what = r.choice(["same"] * 6 + ["key", "message", "hash", "salt", "tail", "header", "short", "other"])
        if what == "key":
            k = r.choice([k ^ 1, r.randrange(len(P))]) % len(P)
        elif what == "message":
            msg = r.choice(msgs)
        elif what == "hash":
            xof = r.choice(pyspec.XOFS)
        elif what == "salt":
            sig = sig[:1] + r.choice(salts) + sig[41:]
        elif what == "tail":
            e = bytearray(sig)
            e[max(i for i, b in enumerate(e) if b)] ^= 1 << r.randrange(8)
            sig = bytes(e)
        elif what == "header":
            sig = bytes([r.choice([0x20, 0x30, 0x40]) + (sig[0] & 15)]) + sig[1:]
        elif what == "short":
            sig = sig[:-1]
        elif what == "other":
            sig = sig[:41] + r.choice(items)[1][41:]
        one(w, n, P[k][0], msg, sig, xof, "walk", pyref.xof(xof), [NTTIterative, NTTRecursive], P[k][1])
        w.ev("walk-" + what)


def toolong(w, xof):
    from polyntt.ntt_iterative import NTTIterative
    n = 64
    X = pyref.xof(xof)
    room = pyspec.LIMIT[xof] - (40 if xof == "KeccakPRNG" else 32)
    for d in (-1, 0, 1, 2, 100):
        msg, salt = w.rng.randbytes(room + d), w.rng.randbytes(40)
        c = pyspec.h2p(xof, salt, msg[:room], n)
        sig = None
        while sig is None:
            s0, s1, h = pyspec.forge(w.rng, n, c, None, .7)
            sig = pyspec.sig_of(n, salt, s1)
        one(w, n, h, msg, sig, xof, "limit", X, [NTTIterative] * 2)


def edge(w, xof, count):
    """Degree 1024, where a coefficient of s0 at the end of the centred range still fits the bound and decides."""
    from polyntt.ntt_iterative import NTTIterative
    from polyntt.ntt_recursive import NTTRecursive
    X = pyref.xof(xof)
    r, n = w.rng, 1024
    for i in range(count):
        msg, salt = r.randbytes(r.randrange(60)), r.randbytes(40)
        c = pyspec.h2p(xof, salt, msg, n)
        d = [0, 1, 12288, -1, 12289, r.randrange(12290)][i % 6]
        v = [6144, -6144][i // 2 % 2]
        pos = r.choice([0, n - 1, r.randrange(n)])
        while True:
            s1 = [int(r.gauss(0, 110)) for _ in range(n)]
            ib = ref.invq(s1)
            if ib is not None:
                break
        s0 = [int(r.gauss(0, 110)) for _ in range(n)]
        s0[pos] = v
        rest = pyspec.BOUND[n] - d - ref.norm2(s0, s1)
        for j in r.sample(range(n), n):
            t = rest + s0[j] ** 2
            if j == pos or rest == 0 or t < 0:
                continue
            x = min(6143, math.isqrt(t))
            rest = t - x * x
            s0[j] = x * r.choice([1, -1])
        h = [int(x) for x in ref.mulq([a - b for a, b in zip(c, s0)], ib)]
        one(w, n, h, msg, pyspec.sig_of(n, salt, s1), xof, "edge:%d" % d, X, [NTTIterative, NTTRecursive])


def plan(R):
    t = []
    for n in pyspec.DEGREES:
        for xof in pyspec.XOFS:
            c = 110 if n < 256 else 60
            if xof == "SHAKE":
                c = max(2, c // 3)
            if not R.quick:
                c *= 8
            for p in range(1 if R.quick else 4):
                t.append(("forge", dict(n=n, xof=xof, count=pool.share(c, 1 if R.quick else 4)[p])))
    for n in pyspec.DEGREES[2:]:
        for p in range(1 if R.quick else 4):
            t.append(("walk", dict(n=n, keys=6, steps=(150 if n < 256 else 60) * (1 if R.quick else 4), part=p)))
    for xof in ("KeccakPRNG", "Blake2sPRNG"):
        t.append(("toolong", dict(xof=xof)))
    for xof in pyspec.XOFS:
        t.append(("edge", dict(xof=xof, count=12 if R.quick else 120)))
    t.sort(key=lambda x: -x[1].get("n", 0))
    return t


if __name__ == "__main__":
    pool.check("P02", "one verify call; distinct by degree, signature, message and hash", {"forge": forge, "toolong": toolong, "edge": edge, "walk": walk}, plan,
               {"want-ok": 200, "want-norm": 200, "want-encoding": 1500, "want-header": 800, "kind-bound": 150, "kind-edge": 24, "kind-negative-zero": 60,
                "kind-padding-bit": 100, "want-too-long": 4, "kind-walk": 500, "walk-hash": 20},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)"])
