"""P03: key recovery (Python) returns the signer's address, and only for genuine, canonical signatures."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import pool, pyref, pyspec, pykeys, ref
from vh.pyref import quiet
from vh.ref import Q

CLS = {}


def one(w, n, msg, sig, xof, kind, what, X, ntts, expect=None, pks=(), obj=None):
    import falcon_epervier, falcon_recovery
    P = {"epervier": falcon_epervier.EpervierPublicKey, "recovery": falcon_recovery.RecoveryModePublicKey}[kind]
    want, addr = pyspec.recover(n, msg, sig, xof, kind)
    case = dict(n=n, msg=msg, sig=sig, xof=xof, variant=kind, kind=what, want=want, address=addr)
    w.now(case)
    w.ev("want-" + want)
    w.ev("kind-" + what.split(":")[0])
    w.case((n, sig, msg, xof, kind))
    T = ntts[w.rng.randrange(2)]
    if expect is not None and addr != expect:
        w.violation("model", "the recovered address is not the signer's in the model (%s, %s, degree %d, %s)" % (kind, want, n, xof), case)
    v, e = pyref.call((obj or P(n, addr or 1)).recover, msg, sig, T, X)
    if want == "ok":
        if v != addr or v is False:
            w.violation("recover", "recover gives %r %r, the model %r (%s, %s, degree %d, %s)" % (v, e, addr, kind, what, n, xof), case)
    elif v is not False and not (want == "too-long" and isinstance(e, ValueError)):
        w.violation("recovers-invalid" if v is not None else "raises", "recover gives %r %r for an invalid signature (%s, %s, %s, degree %d)" % (
            v, e, kind, what, want, n), case)
    ask = [0, addr or 12345, (addr or 1) ^ 1] + list(pks)
    if want == "ok" and n > 8:          # hashing the key is slow in this implementation
        ask = [w.rng.choice(ask)]
    if obj is not None:
        ask = [obj.pk]
    for pk in ask:
        v, e = pyref.call((obj or P(n, pk)).verify, msg, sig, T, X)
        w.ev("verify")
        if (v is True) != (want == "ok" and pk == addr) or (v is not True and v is not False and not isinstance(e, ValueError)):
            w.violation("verify", "verify under address %d gives %r %r; recovery model: %s %r (%s, %s, degree %d)" % (pk, v, e, want, addr, kind, what, n), case)
    if len(w.samples) < 3:
        w.sample({k: case[k] for k in ("n", "xof", "variant", "kind", "want")})


def build(n, salt, s0, s1, inv=None, header=None, pad=True):
    b = pyspec.comp(list(s0) + list(s1))
    cap = 2 * pyspec.SIGLEN[n] - 41
    if len(b) > 8 * cap:
        return None
    if inv is None:
        inv = [pow(int(v), -1, Q) if v else 0 for v in ref.ntt([v % Q for v in s1])]
    return bytes([pyspec.headers(n)[1] if header is None else header]) + salt + pyspec.bits2bytes(b, cap if pad else None) + \
        b"".join(int(v).to_bytes(3, "big") for v in inv)


def forge(w, n, xof, kind, count):
    from polyntt.ntt_iterative import NTTIterative
    from polyntt.ntt_recursive import NTTRecursive
    ntts = [NTTIterative, NTTRecursive]
    X = pyref.xof(xof)
    r = w.rng
    B = pyspec.BOUND[n]
    cap = 2 * pyspec.SIGLEN[n] - 41

    def go(msg, sig, what, expect=None):
        one(w, n, msg, sig, xof, kind, what, X, ntts, expect)

    for i in range(count):
        msg, salt = r.randbytes(r.choice([0, 1, 32, r.randrange(200)])), r.randbytes(40)
        c = pyspec.h2p(xof, salt, msg, n)
        d = [0, 1, -1, r.randrange(1, 1000), -r.randrange(1000)][i % 5]
        for _ in range(400):
            try:
                s0, s1, h = pyspec.forge(r, n, c, B + d, r.choice([.6, .8, .95]))
            except AssertionError:
                continue
            if r.random() < .5 and ref.invq(s0) is not None:
                s0, s1 = s1, s0
                h = [int(v) for v in ref.mulq([a - b for a, b in zip(c, s0)], ref.invq(s1))]
            sig = build(n, salt, s0, s1)
            if sig is not None:
                break
        else:
            w.ev("no-forgery")
            continue
        addr = pyspec.address(ref.ntt(h) if kind == "epervier" else h)
        ok = ref.norm2(s0, s1) <= B
        go(msg, sig, "bound:%d" % d, addr if ok else None)
        hd = sig[0]
        for x in (pyspec.headers(n)[0], hd ^ 1, 0, r.randrange(256)):
            go(msg, bytes([x]) + sig[1:], "header")
        e = pyspec.comp(list(s0) + list(s1))
        tail = sig[-3 * n:]
        tight = pyspec.bits2bytes(e)
        go(msg, sig[:41] + tight + tail, "unpadded", addr if ok else None)
        go(msg, sig[:41] + tight[:-1] + tail, "truncated")
        go(msg, sig[:-3 * n] + b"\0" + tail, "longer")
        go(msg, sig + b"\0", "appended")
        go(msg, sig[:-1], "cut")
        go(msg, sig[:-3], "cut")
        if len(e) % 8:
            p = bytearray(sig)
            p[41 + len(e) // 8] |= 1 << r.randrange(8 - len(e) % 8)
            go(msg, bytes(p), "padding-bit")
        if len(tight) < cap:
            p = bytearray(sig)
            p[r.randrange(41 + len(tight), 41 + cap)] ^= 1 << r.randrange(8)
            go(msg, bytes(p), "padding-byte")
        # the inverse: other representatives, other values, zero
        inv = [int.from_bytes(tail[3 * k:3 * k + 3], "big") for k in range(n)]
        for m in (1, 2, 1364):
            v = list(inv)
            k = r.choice([0, n - 1, r.randrange(n)])
            v[k] += Q * m
            if v[k] < 1 << 24:
                go(msg, build(n, salt, s0, s1, v), "inverse+q")
        for k in (0, n - 1, n // 2, r.randrange(n)):
            v = list(inv)
            v[k] = (v[k] + r.randrange(1, Q)) % Q
            go(msg, build(n, salt, s0, s1, v), "inverse-wrong")
        v = list(inv)
        v[r.randrange(n)] = 0
        go(msg, build(n, salt, s0, s1, v), "inverse-zero")
        go(msg, build(n, salt, s0, s1, [Q - x for x in inv]), "inverse-neg")
        if n > 1:
            v = list(inv)
            v[0], v[1] = v[1], v[0]
            go(msg, build(n, salt, s0, s1, v), "inverse-swapped")
        # s1 with a zero in its transform: short multiples of (x^2^k - root) exist rarely; take s1 = 0 and x-divisible cases
        for bad in ([0] * n, zero_transform(r, n)):
            if bad is None:
                continue
            t = [int(x) for x in ref.ntt([x % Q for x in bad])]
            v = [pow(x, -1, Q) if x else r.choice([0, 1, r.randrange(Q)]) for x in t]
            s = build(n, salt, s0, bad, v)
            if s is not None:
                go(msg, s, "not-invertible")
        # negated pair, swapped pair: valid encodings of another key
        go(msg, build(n, salt, [-x for x in s0], [-x for x in s1]) or b"", "negated")
        go(msg, build(n, salt, s1, s0) or b"", "swapped")
        s2 = list(s0)
        s2[r.randrange(n)] += r.choice([-1, 1])
        go(msg, build(n, salt, s2, s1) or b"", "moved")
        s2 = list(s1)
        s2[r.randrange(n)] += r.choice([-1, 1])
        go(msg, build(n, salt, s0, s2, inv) or b"", "moved-s1")
        for _ in range(6):
            p = bytearray(sig)
            p[r.randrange(len(p))] ^= 1 << r.randrange(8)
            go(msg, bytes(p), "bit")
        z = [k for k, x in enumerate(s0) if x == 0]
        if z:
            k = r.choice(z)
            b = pyspec.comp(s0[:k]) + "100000001" + pyspec.comp(s0[k + 1:] + list(s1))
            if len(b) <= 8 * cap:
                go(msg, sig[:41] + pyspec.bits2bytes(b, cap) + tail, "negative-zero")
        go(msg + b"\0", sig, "message")
        if msg:
            go(msg[1:], sig, "message")
            go(msg[1:], sig[:40] + msg[:1] + sig[41:], "boundary")
        for s in (b"", sig[:1], sig[:40], sig[:41], sig[:41 + 3 * n], bytes([hd]) + tail, bytes([hd]) * 60, sig[:41] + tail):
            go(msg, s, "short")
        go(msg, sig[:41] + b"\0" * cap + tail, "zeros")
        go(msg, sig[:41] + b"\0" * cap + b"\0" * (3 * n), "zeros")
        s2 = [0] * n
        s2[0] = 1
        go(msg, build(n, salt, s0, s2) or b"", "unit")
    w.ev("forgeries", count)


def walk(w, n, kind, keys, steps):
    """Long-lived objects asked in turn about signatures that share salts, messages, values or inverses."""
    import falcon_epervier, falcon_recovery
    from polyntt.ntt_iterative import NTTIterative
    from polyntt.ntt_recursive import NTTRecursive
    C = {"epervier": falcon_epervier.EpervierPublicKey, "recovery": falcon_recovery.RecoveryModePublicKey}[kind]
    r = w.rng
    B = pyspec.BOUND[n]
    salts = [r.randbytes(40) for _ in range(2)]
    m0 = r.randbytes(50)
    msgs = [m0, m0[:49] + bytes([m0[49] ^ 1]), m0[:49], b""]
    P, items = [], []
    while len(P) < keys:
        xof, msg, salt = r.choice(pyspec.XOFS), r.choice(msgs), r.choice(salts)
        c = pyspec.h2p(xof, salt, msg, n)
        try:
            s0, s1, h = pyspec.forge(r, n, c, B - r.choice([0, 0, 1, 1000, B // 8, -1]), r.choice([.6, .8, .9]))
        except AssertionError:
            continue
        sig = build(n, salt, s0, s1)
        if sig is None:
            continue
        a = pyspec.address(ref.ntt(h) if kind == "epervier" else h)
        P.append(C(n, a))
        items.append((msg, sig, xof))
        if len(P) < keys:
            P.append(C(n, r.choice([a ^ 1, a ^ (1 << 159), 0])))
            items.append((msg, sig, xof))
    for _ in range(steps):
        k = r.randrange(len(P))
        msg, sig, xof = items[k]
        what = r.choice(["same"] * 4 + ["key", "message", "hash", "salt", "inverse", "header", "short", "other"])
        if what == "key":
            k = r.choice([k ^ 1, r.randrange(len(P))]) % len(P)
        elif what == "message":
            msg = r.choice(msgs)
        elif what == "hash":
            xof = r.choice(pyspec.XOFS)
        elif what == "salt":
            sig = sig[:1] + r.choice(salts) + sig[41:]
        elif what == "inverse":
            e = bytearray(sig)
            e[-1] ^= 1
            sig = bytes(e)
        elif what == "header":
            sig = bytes([0x20 + (sig[0] & 15)]) + sig[1:]
        elif what == "short":
            sig = sig[:-1]
        elif what == "other":
            sig = sig[:-3 * n] + r.choice(items)[1][-3 * n:]
        one(w, n, msg, sig, xof, kind, "walk", pyref.xof(xof), [NTTIterative, NTTRecursive], obj=P[k])
        w.ev("walk-" + what)


_SUB = {}


def zero_transform(r, n):
    """A short s1 whose transform vanishes somewhere but not everywhere: (a + b x^(n/2)) * small, with a + b*i = 0 mod q."""
    # i = root of x^2 = -1; 12289 = a^2 + b^2 has the solution (55, 96): 3025 + 9216 = 12241 no; search once
    if not _SUB:
        for a in range(1, 111):
            b = int((Q - a * a) ** .5 + .5)
            if a * a + b * b == Q:
                _SUB["ab"] = (a, b)
    a, b = _SUB["ab"]
    if n < 2:
        return None
    s = [0] * n
    j = r.randrange(n // 2)
    s[j] = r.choice([-1, 1]) * a
    s[j + n // 2] = r.choice([-1, 1]) * b
    return s


def genuine(w, n, xof, kind, count):
    import falcon_epervier, falcon_recovery
    from polyntt.ntt_iterative import NTTIterative
    X = pyref.xof(xof)
    S = {"epervier": falcon_epervier.EpervierSecretKey, "recovery": falcon_recovery.RecoveryModeSecretKey}[kind]
    with quiet():
        sk = S(n, pykeys.polys(n, w.rng))
    for i in range(count):
        msg = w.rng.randbytes(w.rng.randrange(150))
        sig, e = pyref.call(sk.sign, msg, randombytes=pyref.Tape(w.rng.getrandbits(60)), xof=X)
        if e is not None:
            w.violation("sign-fails", repr(e), dict(n=n, kind=kind, msg=msg))
            continue
        one(w, n, msg, sig, xof, kind, "genuine", X, [NTTIterative] * 2, sk.pk, [sk.pk])


def plan(R):
    t = []
    for n in pyspec.DEGREES:
        for kind in ("epervier", "recovery"):
            for xof in pyspec.XOFS:
                c = 6 if n < 128 else 2 if n < 512 else 1
                if xof == "SHAKE":
                    c = 2 if n < 128 else 1
                if not R.quick:
                    c *= 30
                for p in range(1 if R.quick else 4):
                    t.append(("forge", dict(n=n, xof=xof, kind=kind, count=c if R.quick else pool.share(c, 4)[p])))
                if R.rng.random() < (.5 if R.quick else 1):
                    t.append(("genuine", dict(n=n, xof=xof, kind=kind, count=3 if R.quick else 20)))
    for n in pyspec.DEGREES[2:]:
        for kind in ("epervier", "recovery"):
            t.append(("walk", dict(n=n, kind=kind, keys=5, steps=(80 if n < 128 else 25 if n < 512 else 10) * (1 if R.quick else 10))))
    t.sort(key=lambda x: -x[1].get("n", 0))
    return t


if __name__ == "__main__":
    pool.check("P03", "one recover call (and its verify calls); distinct by degree, signature, message, hash and variant",
               {"forge": forge, "genuine": genuine, "walk": walk}, plan,
               {"want-ok": 600, "want-norm": 150, "want-encoding": 1500, "want-header": 1000, "want-inverse": 500, "want-inverse-range": 500,
                "kind-not-invertible": 200, "kind-genuine": 30, "verify": 8000, "kind-walk": 400, "walk-hash": 10},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)"])
