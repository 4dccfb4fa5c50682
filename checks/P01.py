"""P01: what the Python signers sign, the Python verifiers accept - every degree, hash, transform and variant."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import pool, pyref, pyspec, ref, pykeys
from vh.pyref import quiet
from vh.ref import Q

VARIANTS = ["plain", "epervier", "recovery"]


def trip(w, n, xof, variant, ntt, count, fresh=False):
    import falcon, falcon_epervier, falcon_recovery, importlib
    from polyntt.ntt_iterative import NTTIterative
    from polyntt.ntt_recursive import NTTRecursive
    X = pyref.xof(xof)
    T = {"it": NTTIterative, "rec": NTTRecursive}[ntt]
    S, P = {"plain": (falcon.SecretKey, falcon.PublicKey), "epervier": (falcon_epervier.EpervierSecretKey, falcon_epervier.EpervierPublicKey),
            "recovery": (falcon_recovery.RecoveryModeSecretKey, falcon_recovery.RecoveryModePublicKey)}[variant]
    polys = pykeys.polys(n, w.rng)
    other = pykeys.polys(n, w.rng)
    info = dict(n=n, xof=xof, variant=variant, ntt=ntt, polys=polys if n <= 64 else None)
    with quiet():
        sk, sk2 = S(n, [list(p) for p in polys], T), S(n, [list(p) for p in other], T)
    while list(sk2.h) == list(sk.h):
        other = pykeys.polys(n, w.rng)
        with quiet():
            sk2 = S(n, [list(p) for p in other], T)
    pk, pk2 = P(n, sk.h if variant == "plain" else sk.pk), P(n, sk2.h if variant == "plain" else sk2.pk)
    h = [int(v) for v in sk.h]
    if any(not 0 <= v < Q for v in h) or [v % Q for v in ref.mulq(h, polys[0])] != [v % Q for v in polys[1]]:
        w.violation("public-key", "h*f != g for degree %d" % n, info)
    if variant != "plain":
        a = pyspec.address(ref.ntt(h) if variant == "epervier" else h)
        if sk.pk != a:
            w.violation("address", "the key address is not the hash of the key (%s, degree %d)" % (variant, n), info)
    room = min(pyspec.LIMIT.get(xof, 5000) - 40, 3000)
    lens = [0, 1, room, 64, 96, 136 - 40, 135 - 40, 137 - 40] + [w.rng.randrange(0, 300) for _ in range(count)]
    salts = set()
    for i in range(count):
        msg = w.rng.randbytes(lens[i] if i < 8 else lens[i])
        seed = w.rng.getrandbits(64)
        case = dict(info, msg=msg, seed=seed)
        w.now(case)
        t1, t2 = pyref.Tape(seed), pyref.Tape(seed)
        sig, e = pyref.call(sk.sign, msg, randombytes=t1, xof=X)
        if e is not None:
            w.violation("sign-fails", "signing fails: %r (degree %d, %s, %s)" % (e, n, xof, variant), case)
            continue
        want = pyspec.SIGLEN[n] if variant == "plain" else 2 * pyspec.SIGLEN[n] + 3 * n
        hd = pyspec.headers(n)[0 if variant == "plain" else 1]
        if len(sig) != want or sig[0] != hd:
            w.violation("format", "signature has %d bytes and header %#x, documented %d and %#x" % (len(sig), sig[0], want, hd), case)
        if sig[1:41] != t1.log[:40]:
            w.violation("salt", "the salt is not the first 40 random bytes", case)
        for k, p, m, s in (("genuine", pk, msg, sk), ("other-message", pk, msg + b"\0", sk),
                           ("other-message", pk, msg[:-1] if msg else b"x", sk), ("other-key", pk2, msg, sk2)):
            if k == "genuine":
                exp = True
            elif variant == "plain":
                exp = pyspec.verdict(n, [int(v) for v in s.h], m, sig, xof)[0] == "ok"
            else:
                exp = pyspec.recover(n, m, sig, xof, variant)[1] == s.pk
            v, e = pyref.call(p.verify, m, sig, T, X)
            w.ev(k)
            if exp is True and v is not True:
                w.violation("refused", "a valid signature is refused: %r %r (degree %d, %s, %s, %s)" % (v, e, n, xof, variant, ntt), case)
            if exp is False and v is not False and not isinstance(e, ValueError):
                w.violation("accepted-" + k, "verify answers %r %r for a signature of %s (degree %d, %s, %s)" % (v, e, k, n, xof, variant), case)
        v = pyspec.verdict(n, h, msg, sig, xof)[0] if variant == "plain" else pyspec.recover(n, msg, sig, xof, variant)
        if v != "ok" and v != ("ok", sk.pk):
            w.violation("model", "the model does not accept the signature: %r (degree %d, %s, %s)" % (v, n, xof, variant), case)
        if i % 3 == 0:
            again, e = pyref.call(sk.sign, msg, randombytes=t2, xof=X)
            w.ev("replayed")
            if again != sig:
                w.violation("not-deterministic", "the same key, message and random bytes gave another signature (%r)" % e, case)
        if fresh:
            s, e = pyref.call(sk.sign, msg, xof=X)
            v, e2 = pyref.call(pk.verify, msg, s, T, X)
            w.ev("system-randomness")
            if v is not True:
                w.violation("refused", "a signature with system randomness is refused: %r %r" % (e, e2), case)
            if s is not None and s[1:41] in salts:
                w.violation("salt-repeats", "the salt of two signatures is the same", case)
            salts.add(s[1:41] if s else b"")
        w.ev("signed-" + variant)
        w.ev("xof-" + xof)
        w.case((n, xof, variant, ntt, seed))
        w.sample(dict(n=n, xof=xof, variant=variant, ntt=ntt, mlen=len(msg)))


def spoiled(r, n, variant, c):
    """Pairs that must not leave the signer: too long, not encodable, or (when the key is recovered from the signature) not invertible."""
    B = pyspec.BOUND[n]
    sc = (B / (2.0 * n)) ** .5 * .7
    def small():
        return [int(r.gauss(0, sc)) for _ in range(n)]
    a, b = small(), small()
    while B + 1 - ref.norm2(a, b) <= 0:
        a, b = small(), small()
    ref.fix_norm(r, a, b, B + 1)
    if ref.norm2(a, b) == B + 1:
        yield "norm", a, b
    # half the bound in each part
    for x, y in ((1.0, .2), (.2, 1.0), (.75, .75)):
        v = int((B / n) ** .5 * x) + 1, int((B / n) ** .5 * y) + 1
        yield "norm", [r.choice([-1, 1]) * v[0]] * n, [r.choice([-1, 1]) * v[1]] * n
    # within the bound and too long to encode
    room = 8 * ((pyspec.SIGLEN[n] if variant == "plain" else 2 * pyspec.SIGLEN[n]) - 41)
    a, b = [0] * n, [0] * n
    parts = [b] if variant == "plain" else [a, b]
    pos = [(p, i) for p in parts for i in range(n)]
    r.shuffle(pos)
    for p, i in pos * 3:
        if len(pyspec.comp(sum(parts, []))) > room:
            break
        if ref.norm2(a, b) + (abs(p[i]) + 128) ** 2 - p[i] ** 2 <= B:
            p[i] = (abs(p[i]) + 128) * r.choice([-1, 1])
    if len(pyspec.comp(sum(parts, []))) > room:
        yield "encoding", a, b
    # one zero among the values of the transform, at a chosen place
    if variant != "plain":
        ks = [0, n - 1] + [r.randrange(n) for _ in range(3)]
        one = [int(v) for v in ref.ntt([1 if i == 1 else 0 for i in range(n)])]
        for k in ks:
            for _ in range(50):
                a, b = small(), small()
                b = [int(x * .8) for x in b]
                t = int(ref.ntt([x % Q for x in b])[k])
                # d0 + d1*w = -t with both small
                d = next(((d0, d1) for d1 in range(-111, 112) for d0 in [((-t - d1 * one[k] + 6144) % Q) - 6144] if abs(d0) <= 111), None)
                if d is None:
                    continue
                b[0] += d[0]
                b[1] += d[1]
                z = [i for i, x in enumerate(ref.ntt([x % Q for x in b])) if x == 0]
                if z == [k] and ref.norm2(a, b) <= B and len(pyspec.comp(a + b)) <= room:
                    yield "singular", a, b
                    break


def poor(w, n, xof, variant, count):
    """The signer is given pairs it has to discard before it gets a good one, as the sampler gives it now and then."""
    import falcon, falcon_epervier, falcon_recovery
    X = pyref.xof(xof)
    S = {"plain": falcon.SecretKey, "epervier": falcon_epervier.EpervierSecretKey, "recovery": falcon_recovery.RecoveryModeSecretKey}[variant]
    with quiet():
        sk = S(n, pykeys.polys(n, w.rng))
    h = [int(v) for v in sk.h]
    queue = []

    def wrap(name):
        old = getattr(sk, name)

        def f(*a, **k):
            if queue:
                w.ev("injected")
                s = queue.pop(0)
                return [list(s[0]), list(s[1])]
            return old(*a, **k)
        setattr(sk, name, f)
    wrap("sample_preimage")
    wrap("sample_preimage_with_prng")
    for i in range(count):
        for kind, a, b in spoiled(w.rng, n, variant, None):
            for system in (False, True):
                msg = w.rng.randbytes(w.rng.randrange(60))
                queue[:] = [(a, b)] * w.rng.choice([1, 1, 3])
                case = dict(n=n, xof=xof, variant=variant, what=kind, s0=a, s1=b, msg=msg)
                w.now(case)
                if system:
                    sig, e = pyref.call(sk.sign, msg, xof=X)
                else:
                    sig, e = pyref.call(sk.sign, msg, randombytes=pyref.Tape(w.rng.getrandbits(60)), xof=X)
                w.ev("poor-" + kind)
                w.case((n, xof, variant, kind, tuple(a), tuple(b)))
                if queue and len(queue) < 3 or e is not None or sig is None:
                    queue[:] = []
                if e is not None or sig is None:
                    w.violation("poor-fails", "after a pair to discard (%s), signing fails: %r (degree %d, %s)" % (kind, e, n, variant), case)
                    continue
                v = pyspec.verdict(n, h, msg, sig, xof)[0] if variant == "plain" else pyspec.recover(n, msg, sig, xof, variant)
                if v != "ok" and v != ("ok", sk.pk):
                    w.violation("poor", "a pair to discard (%s) leaves the signer: the model says %r (degree %d, %s)" % (kind, v, n, variant), case)


def limit(w, n, xof):
    """A message that does not fit the hash buffer is refused by both sides, never truncated."""
    import falcon
    X = pyref.xof(xof)
    polys = pykeys.polys(n, w.rng)
    sk = falcon.SecretKey(n, polys)
    room = pyspec.LIMIT[xof] - (40 if xof == "KeccakPRNG" else 32)
    for d in (0, 1, 2, 7, 33, 136, 512, 5000):
        msg = w.rng.randbytes(room + d)
        s, e = pyref.call(sk.sign, msg, randombytes=pyref.Tape(d), xof=X)
        w.ev("limit")
        w.case(("limit", n, xof, d))
        if (s is not None) != (d == 0):
            w.violation("limit", "signing %d bytes over the buffer limit with %s: %r %r" % (d, xof, s and len(s), e), dict(n=n, xof=xof, over=d))
        if d == 0 and s is not None:
            base = s
            basemsg = msg
        else:
            v, e = pyref.call(falcon.PublicKey(n, sk.h).verify, basemsg + msg[:d], base, xof=X)
            if v not in (False, None):
                w.violation("limit", "a message extended beyond the hash buffer verifies", dict(n=n, xof=xof, over=d))


def history(w, n, variant, steps):
    """Two long-lived keys with the same f and g (and so the same public key), and an unrelated one, sign in turn: every
    signature is the one that a new key object makes for the same message, hash and random bytes."""
    import falcon, falcon_epervier, falcon_recovery
    S, P = {"plain": (falcon.SecretKey, falcon.PublicKey), "epervier": (falcon_epervier.EpervierSecretKey, falcon_epervier.EpervierPublicKey),
            "recovery": (falcon_recovery.RecoveryModeSecretKey, falcon_recovery.RecoveryModePublicKey)}[variant]
    r = w.rng
    f, g, F, G = pykeys.polys(n, r)
    k = r.randrange(2 * n)
    F2 = [a + b for a, b in zip(F, pykeys.shift(f, k))]
    G2 = [a + b for a, b in zip(G, pykeys.shift(g, k))]
    sets = [[f, g, F, G], [f, g, F2, G2], pykeys.polys(n, r)]
    def new(i):
        with quiet():
            return S(n, [list(p) for p in sets[i]])
    sks = [new(i) for i in range(3)]
    pks = [P(n, s.h if variant == "plain" else s.pk) for s in sks]
    msgs = [r.randbytes(40), r.randbytes(40), b""]
    known = {}
    for i in range(steps):
        key = (r.randrange(3), r.randrange(3), r.randrange(2), r.choice(pyspec.XOFS[:2] if n >= 256 else pyspec.XOFS))
        k, m, seed, xof = key
        X = pyref.xof(xof)
        case = dict(n=n, variant=variant, polys=sets[k] if n <= 64 else None, key=key)
        w.now(case)
        if r.random() < .3:             # a call with other randomness, or one that fails, in between
            pyref.call(sks[k].sign, msgs[m], xof=X) if r.random() < .7 else pyref.call(sks[k].sign, None, xof=X)
        sig, e = pyref.call(sks[k].sign, msgs[m], randombytes=pyref.Tape(seed), xof=X)
        if key not in known:
            known[key] = pyref.call(new(k).sign, msgs[m], randombytes=pyref.Tape(seed), xof=X)[0]
        w.ev("history")
        w.case((n, variant, xof, tuple(f), i))
        if sig is None or sig != known[key]:
            w.violation("history", "a key object in use gives another signature than a new one for the same message and random bytes: %r (degree %d, %s, %s)" % (
                e, n, variant, xof), case)
            continue
        j = r.randrange(3)
        v, e = pyref.call(pks[j].verify, msgs[m], sig, xof=X)
        if v is not (j == k or {j, k} == {0, 1}):
            w.violation("history-verdict", "verify answers %r %r for a signature of %s (degree %d, %s, %s)" % (
                v, e, "the key" if j == k else "the key with other F and G" if {j, k} == {0, 1} else "another key", n, variant, xof), case)


def plan(R):
    t = []
    k = 1 if R.quick else 12
    for n in pyspec.DEGREES:
        for xof in pyspec.XOFS:
            for variant in VARIANTS:
                ntt = R.rng.choice(["it", "rec"])
                c = {512: 8, 1024: 3}.get(n, 9)
                if xof == "SHAKE" and n >= 256:
                    c = max(2, c // 2)
                t.append(("trip", dict(n=n, xof=xof, variant=variant, ntt=ntt, count=c * k, fresh=n in (64, 512))))
    for n in (32, 128, 512, 1024):
        for variant in VARIANTS:
            t.append(("poor", dict(n=n, xof="KeccakPRNG", variant=variant, count=(2 if n < 1024 else 1) * k)))
    for n in (8, 32, 64, 256, 512, 1024):
        for variant in VARIANTS:
            t.append(("history", dict(n=n, variant=variant, steps={8: 40, 32: 40, 64: 30, 256: 10, 512: 8, 1024: 5}[n] * k)))
    for n in (16, 512):
        for xof in ("KeccakPRNG", "Blake2sPRNG"):
            t.append(("limit", dict(n=n, xof=xof)))
    t.sort(key=lambda x: -x[1]["n"])
    return t


if __name__ == "__main__":
    pool.check("P01", "one signed message; distinct by degree, hash, variant, transform and random seed", {"trip": trip, "limit": limit, "poor": poor, "history": history}, plan,
               {"genuine": 500, "other-message": 900, "other-key": 500, "signed-plain": 200, "signed-epervier": 200, "signed-recovery": 200,
                "replayed": 150, "system-randomness": 50, "limit": 30, "poor-norm": 100, "poor-encoding": 12, "poor-singular": 40, "history": 250},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)"])
