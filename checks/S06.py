"""S06: keys and tables stored on chain come back as stored, and the ERC-7913 entry point accepts exactly the
signatures of the stored key."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import pool, pyspec, ref, solx
from vh.ref import Q
from vh.sol import rt

N = 512
BOUND = pyspec.BOUND[N]
KIND = {"ZKNOX_falcon": "SHAKE", "ZKNOX_ethfalcon": "KeccakPRNG"}
MAGIC = int.from_bytes(rt.selector("verify(bytes,bytes32,bytes)"), "big")
D = "src/ZKNOX_falcon_deploy.sol"
ARR = ("arr", ("uint", 256), None)


def abi(words):
    return rt.enc([ARR], [words])


def lanes(ws):
    return solx.expand(ws)


def model(xof, stored, digest, sig):
    """may this be accepted?"""
    if len(sig) != 1064:
        return False
    try:
        ws, = rt.dec([ARR], stored)
    except Exception:
        return False
    if len(ws) != 32:
        return False
    s2 = lanes([int.from_bytes(sig[40 + 32 * i:72 + 32 * i], "big") for i in range(32)])
    if max(s2) >= Q:
        return False
    c = pyspec.h2p(xof, sig[:40], digest, N)
    u = np.asarray(lanes(ws)) % Q
    s1 = ref.centre(np.asarray(c, dtype=np.int64) - ref.intt(ref.ntt(s2) * u % Q))
    return ref.norm2(s1, ref.centre(np.asarray(s2, dtype=np.int64))) <= BOUND


def accounts(w, name, count):
    """Several keys stored over time, signatures under all of them, in any order."""
    r = w.rng
    ch = solx.Chain()
    at = ch.deploy(name)
    xof = KIND[name]
    keys = []  # (pointer, stored bytes, known good (digest, sig))

    def store(data):
        ok, p = ch.call(at, "setKey(bytes)", data, rets="bytes", sender=r.choice([1, 0xCA11, r.getrandbits(160)]))
        w.ev("setKey")
        if not ok or len(p) != 20 or any(p == k[0] for k in keys):
            w.violation("setKey", "setKey answers %s" % (p.hex() if ok else solx.why(p)), {"contract": name, "stored": data, "before": [k[0] for k in keys]})
            return None
        return p

    def ask(p, digest, sig, why):
        stored = next((k[1] for k in keys if k[0] == p[:20]), b"")
        case = {"contract": name, "why": why, "key": p, "stored": stored, "digest": digest, "sig": sig}
        w.now(case)
        w.case((name, p, digest, sig))
        want = model(xof, stored, digest, sig)
        ok, v = ch.call(at, "verify(bytes,bytes32,bytes)", p, int.from_bytes(digest, "big"), sig, rets="bytes32", sender=r.getrandbits(160))
        w.ev("accepted" if want else "refused")
        if want and (not ok or v != MAGIC << 224):
            if max(lanes(rt.dec([ARR], stored)[0])) < Q:
                w.violation("entry-refuses", "verify answers %s, should answer the selector (%s)" % (hex(v) if ok else "revert " + solx.why(v), why), case)
        if not want and ok and v != 0xffffffff << 224:
            w.violation("entry-accepts", "verify answers %x, should refuse (%s)" % (v, why), case)

    for i in range(count):
        digest, salt = r.randbytes(32), r.randbytes(40)
        c = pyspec.h2p(xof, salt, digest, N)
        s1, s2, h = pyspec.forge(r, N, c, BOUND + r.choice([0, 0, -r.randrange(BOUND)]))
        u = solx.compact([int(v) for v in ref.ntt(h)])
        sig = salt + b"".join(x.to_bytes(32, "big") for x in solx.compact([v % Q for v in s2]))
        stored = abi(u)
        k = i % 5
        if k == 4:
            stored = r.choice([b"".join(x.to_bytes(32, "big") for x in u), stored[:-1], stored[:-32], abi(u[:31]), abi(u + [0]), b"", stored + b"\0" * 32, abi([]),
                               r.randbytes(64), (64).to_bytes(32, "big") + bytes(32) + stored[32:], b"\xff" * 1088])
        p = store(stored)
        if p is None:
            continue
        keys.append((p, stored, digest, sig))
        ask(p, digest, sig, "a signature")
        for _ in range(2):
            q = r.choice(keys)
            ask(q[0], q[2], q[3], "the signature of key %d again" % keys.index(q))
        o = r.choice(keys)
        ask(o[0], digest, sig, "the signature of another key")
        ask(p, o[2], sig, "the digest of another signature")
        e = bytearray(sig)
        e[r.choice([0, 39, 40, 71, 72, 1063, r.randrange(1064)])] ^= 1 << r.randrange(8)
        ask(p, digest, bytes(e), "a bit of the signature changed")
        d = bytearray(digest)
        d[r.choice([0, 31, r.randrange(32)])] ^= 1 << r.randrange(8)
        ask(p, bytes(d), sig, "a bit of the digest changed")
        n = r.choice([1063, 1065, 1064 + 31, 1064 + 32, 1064 - 32, 0, 1, 39, 40, 41, 72, 1024, 2128, r.randrange(1064), 1064 + r.randrange(1, 32), 40 + 32 * 33, 1056])
        ask(p, digest, (sig + r.choice([bytes(1100), sig + sig, r.randbytes(1100)]))[:n], "%d bytes of signature" % n)
        e = bytearray(sig)
        j = r.randrange(N)
        x = s2[j] % Q + Q * r.randrange(1, (65535 - s2[j] % Q) // Q + 1)
        pos = 40 + 32 * (j // 16) + 30 - 2 * (j % 16)
        e[pos:pos + 2] = x.to_bytes(2, "big")
        ask(p, digest, bytes(e), "coefficient %d of s2 written as %d" % (j, x))
        ask(r.choice([bytes(20), at.to_bytes(20, "big"), r.randbytes(20), (int.from_bytes(p, "big") + 1).to_bytes(20, "big")]), digest, sig, "a key that was not stored")
        if ch.code(int.from_bytes(p, "big")) != b"\0" + stored:
            w.violation("stored", "the code at %s is not the key" % p.hex(), {"stored": stored})
    for p, stored, d, s in keys:
        ask(p, d, s, "at the end")
    w.sample({"contract": name, "keys": len(keys), "first": keys[0][0].hex()})


def tables(w, count):
    r = w.rng

    def brv(i):
        return int(format(i, "09b")[::-1], 2)
    psi = [pow(49, brv(i), Q) for i in range(N)]
    inv = [pow(49, -brv(i), Q) for i in range(N)]
    for i in range(count):
        ch = solx.Chain()
        salt = r.getrandbits(256)
        case = {"salt": hex(salt)}
        w.now(case)
        ok, v = solx.free(D, "Deploy", salt, chain=ch)
        w.ev("Deploy")
        for k, t in enumerate((psi, inv)):
            if not ok or ch.code(v[k]) != b"".join(x.to_bytes(2, "big") for x in t):
                w.violation("Deploy", "Deploy %s" % ("stores another table %d" % k if ok else "reverts: " + solx.why(v)), case)
        ok2, v2 = solx.free(D, "Deploy", salt, chain=ch)
        if ok2:
            w.violation("Deploy-twice", "Deploy answers %r for a salt that is in use" % (v2,), case)
        ok2, v2 = solx.free(D, "Deploy", salt ^ 1, chain=ch)
        if not ok2 or set(v2) & set(v if ok else ()):
            w.violation("Deploy", "a second Deploy with another salt answers %r" % (v2,), case)
        p = [r.getrandbits(256) for _ in range(r.choice([0, 1, 2, 32, 512, r.randrange(600)]))]
        case = {"salt": hex(salt), "polynomial": [hex(x) for x in p]}
        w.now(case)
        w.case(repr(case))
        w.ev("DeployPolynomial")
        ok, v = solx.free(D, "DeployPolynomial", salt, p, chain=ch)
        if not ok or ch.code(v) != b"".join(x.to_bytes(32, "big") for x in p):
            w.violation("DeployPolynomial", "DeployPolynomial %s" % ("stores something else" if ok else "reverts: " + solx.why(v)), case)
        # the transform contract on tables stored this way
        a1, a2 = (solx.free(D, "DeployPolynomial", salt, t, chain=ch)[1] for t in (psi, inv))
        at = ch.deploy("ZKNOX_NTT", a1, a2, Q, pow(N, -1, Q))
        a, b = ([r.randrange(Q) for _ in range(N)] for _ in range(2))
        w.ev("stored-tables")
        if ch.call(at, "ZKNOX_NTT_MUL(uint256[],uint256[])", a, b, rets="uint256[]") != (True, ref.mulq(a, b).tolist()):
            w.violation("tables", "ZKNOX_NTT multiplies wrongly with tables stored by DeployPolynomial", {"a": a, "b": b})


def plan(R):
    k = 1 if R.quick else 25
    t = [("accounts", dict(name="ZKNOX_ethfalcon", count=40 * k, part=p)) for p in range(3)]
    t += [("accounts", dict(name="ZKNOX_falcon", count=16 * k, part=p)) for p in range(4)]
    return t + [("tables", dict(count=40 * k))]


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("S06", "one call of the entry point, or one deployment; distinct by its inputs", {f.__name__: strip(f) for f in (accounts, tables)}, plan,
               {"setKey": 150, "accepted": 300, "refused": 1000, "Deploy": 30, "DeployPolynomial": 30, "stored-tables": 30},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled",
                "lib/InterfaceVerifier is empty here: its interface is a stand-in in /verif/stubs/sol"])
