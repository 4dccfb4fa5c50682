"""X01: what the off-chain implementations sign, the contracts accept, for this message and key only; through the command
line too."""
import ast, importlib.util, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, pykeys, pyref, pyspec, ref, solx
from vh.ref import Q

N = 512
V = "verify(bytes,bytes,uint256[],uint256[])"
REC = "recover(bytes,bytes,uint256[],uint256[],uint256)"
PLAIN = {"SHAKE": "ZKNOX_falcon", "KeccakPRNG": "ZKNOX_ethfalcon"}
EPER = {"SHAKE": "ZKNOX_epervier", "KeccakPRNG": "ZKNOX_ethepervier"}
E = "src/ZKNOX_falcon_encodings.sol"
F = "src/ZKNOX_NTT_falcon.sol"


def lanes(v):
    return solx.compact([int(x) % Q for x in v])


def expect(w, what, want, got, case):
    w.ev("accepted" if want is not None else "refused")
    ok, v = got
    if want is None and ok and v is not False and v != 0:
        w.violation(what + "-accepts", "%s answers %r (%s)" % (what, v, case["why"]), case)
    if want is not None and (not ok or v != want):
        w.violation(what, "%s answers %s, should answer %r (%s)" % (what, v if ok else "revert " + solx.why(v), want, case["why"]), case)


def spoil(r, msg, salt, *vs):
    """Another message, salt or vector."""
    k = r.randrange(2 + len(vs))
    if k == 0:
        return ("message changed", bytes([msg[0] ^ 1 << r.randrange(8)]) + msg[1:] if msg else b"\0", salt) + vs
    if k == 1:
        j = r.randrange(40)
        return ("salt changed", msg, salt[:j] + bytes([salt[j] ^ 1 << r.randrange(8)]) + salt[j + 1:]) + vs
    vs = [list(v) for v in vs]
    j = r.randrange(N)
    vs[k - 2][j] = (int(vs[k - 2][j]) + r.randrange(1, Q)) % Q
    return ("vector %d changed at %d" % (k - 2, j), msg, salt) + tuple(vs)


def python(w, xof, count):
    """Python signs, the contract of the same hash verifies; the other contract does not."""
    import falcon
    r = w.rng
    ch = solx.Chain()
    at = {x: ch.deploy(n) for x, n in PLAIN.items()}
    other = [x for x in PLAIN if x != xof][0]
    sk = None
    for i in range(count):
        if i % 4 == 0:
            polys = pykeys.polys(N, r)
            sk = falcon.SecretKey(N, polys)
        msg = r.randbytes(r.choice([0, 1, 32, 32, r.randrange(300)]))
        case = {"polys": polys, "msg": msg, "xof": xof}
        w.now(case)
        sig = sk.sign(msg, xof=pyref.xof(xof))
        salt, s = sig[1:41], pyspec.decomp(sig[41:], pyspec.SIGLEN[N] - 41, N)
        h = ref.mulq(polys[1], ref.invq(polys[0]))
        ok, nh = solx.free(F, "_ZKNOX_NTTFW_vectorized", [int(x) % Q for x in h])
        case.update(sig=sig, why="signed by the Python reference")
        w.case((xof, sig))
        w.ev("python-" + xof)
        expect(w, PLAIN[xof], True, ch.call(at[xof], V, msg, salt, lanes(s), lanes(nh), rets="bool"), case)
        case["why"] = "the other hash"
        expect(w, PLAIN[other], None, ch.call(at[other], V, msg, salt, lanes(s), lanes(nh), rets="bool"), case)
        why, m2, t2, s2, k2 = spoil(r, msg, salt, s, nh)
        # one changed coefficient of a short vector may stay short; the norm says
        if why.startswith("vector 0"):
            c = pyspec.h2p(xof, salt, msg, N)
            x = ref.centre(ref.np.asarray(s2))
            if ref.norm2(ref.centre(ref.np.asarray(c) - ref.mulq(x, h)), x) <= pyspec.BOUND[N]:
                continue
        case["why"] = why
        expect(w, PLAIN[xof], None, ch.call(at[xof], V, m2, t2, lanes(s2), lanes(k2), rets="bool"), case)
        w.sample({"xof": xof, "message": msg})


def recovery(w, xof, count):
    import falcon_epervier
    r = w.rng
    ch = solx.Chain()
    at = ch.deploy(EPER[xof])
    for i in range(count):
        if i % 4 == 0:
            polys = pykeys.polys(N, r)
            sk = falcon_epervier.EpervierSecretKey(N, polys)
            addr = pyspec.address(ref.ntt(ref.mulq(polys[1], ref.invq(polys[0]))))
        msg = r.randbytes(r.choice([0, 1, 32, 32, r.randrange(300)]))
        case = {"polys": polys, "msg": msg, "xof": xof}
        w.now(case)
        sig = sk.sign(msg, xof=pyref.xof(xof))
        s = pyspec.decomp(sig[41:-3 * N], 2 * pyspec.SIGLEN[N] - 41, 2 * N)
        hint = 1
        for x in ref.ntt(s[N:]):
            hint = hint * int(x) % Q
        hint = pow(hint, -1, Q)
        case.update(sig=sig, why="signed by the Python reference")
        w.case((xof, sig))
        w.ev("epervier-" + xof)
        a = (lanes(s[:N]), lanes(s[N:]), hint)
        expect(w, EPER[xof], addr, ch.call(at, REC, msg, sig[1:41], *a, rets="address"), case)
        k = r.randrange(3)
        m2, t2 = (msg + b"\0", sig[1:41]) if k == 0 else (msg, sig[2:41] + sig[1:2]) if k == 1 else (msg, sig[1:41])
        a2 = a if k < 2 else (a[0], a[1], (hint + r.randrange(1, Q)) % Q)
        if (m2, t2, a2) == (msg, sig[1:41], a):
            continue
        ok, v = ch.call(at, REC, m2, t2, *a2, rets="address")
        w.ev("refused")
        if ok and v == addr:
            w.violation(EPER[xof] + "-accepts", "recover names the signer for another message, salt or hint", dict(case, k=k))


def cref(w, mode, count):
    """The C reference signs; the contracts read its NIST format, and the words of its 16-bit format."""
    from vh.cfalcon import Lib
    L = Lib(mode)
    r = w.rng
    ch = solx.Chain()
    name = PLAIN["SHAKE" if mode == "shake" else "KeccakPRNG"]
    at = ch.deploy(name)
    for i in range(count):
        if i % 3 == 0:
            ks = r.getrandbits(63)
            L.seed(ks)
            _, pk, sk = L.keypair(False)
            L.seed(ks)
            _, zpk, zsk = L.keypair(True)
        msg = r.randbytes(r.choice([0, 1, 32, 33, r.randrange(300)]))
        case = {"mode": mode, "pk": pk, "msg": msg}
        w.now(case)
        L.seed(r.getrandbits(63))
        rc, sm = L.sign("nist", msg, sk)
        case["sm"] = sm
        w.case((mode, sm))
        w.ev("c-" + mode)
        case["why"] = "signed by the C reference"
        ok, v = solx.free(E, "decompress_KAT", pk, sm, len(msg))
        if not ok:
            w.violation("decompress_KAT", "decompress_KAT refuses what the C reference signs: %s" % solx.why(v), case)
            continue
        h, s2, salt, m = v
        if bytes(m) != msg or bytes(salt) != sm[2:42]:
            w.violation("decompress_KAT", "decompress_KAT gives another message or salt", case)
        nh = solx.free(F, "_ZKNOX_NTTFW_vectorized", h)[1]
        expect(w, name, True, ch.call(at, V, bytes(m), bytes(salt), solx.compact(s2), solx.compact(nh), rets="bool"), case)
        bad = bytearray(sm)
        j = r.randrange(2, 42 + len(msg))
        bad[j] ^= 1 << r.randrange(8)
        ok, v = solx.free(E, "decompress_KAT", pk, bytes(bad), len(msg))
        case["why"] = "byte %d of the signed message changed" % j
        expect(w, name, None, ch.call(at, V, bytes(v[3]), bytes(v[2]), solx.compact(v[1]), solx.compact(nh), rets="bool") if ok else (False, b""), case)
        rc, zsm = L.sign("zknox", msg, zsk)
        be = lambda b: [b[2 * i] << 8 | b[2 * i + 1] for i in range(N)]
        s = be(zsm[43 + len(msg):])
        case.update(sm=zsm, why="signed by the C reference in words")
        expect(w, name, True, ch.call(at, V, msg, zsm[2:42], solx.compact(s), solx.compact(be(zpk[1:])), rets="bool"), case)
        why, m2, t2, s2, k2 = spoil(r, msg, zsm[2:42], s, be(zpk[1:]))
        case["why"] = why
        if not why.startswith("vector 0"):
            expect(w, name, None, ch.call(at, V, m2, t2, solx.compact(s2), solx.compact(k2), rets="bool"), case)


def cli(w, version, count):
    """sign and verifyonchain of the command line; the recorded call is made to the contract."""
    spec = importlib.util.spec_from_file_location("p10", os.path.join(os.path.dirname(os.path.abspath(__file__)), "P10.py"))
    p10 = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(p10)
    r = w.rng
    sh = p10.Shell("x-" + version)
    ch = solx.Chain()
    at = ch.deploy({"falcon": "ZKNOX_falcon", "ethfalcon": "ZKNOX_ethfalcon", "epervier": "ZKNOX_epervier"}[version])
    polys = pykeys.polys(N, r)
    key = p10.pubkey(version, polys)
    sh.write("priv", p10.keyfile(version, polys))
    sh.write("pub", p10.pubfile(version, key))
    for i in range(count):
        msg = r.randbytes(r.choice([1, 32, r.randrange(1, 200)]))
        case = {"version": version, "polys": polys, "msg": msg}
        if not p10.ok(w, sh.run("sign", "--data", msg.hex(), "--privkey", "priv"), "sign", case):
            continue
        sig = sh.read("sig")
        case["sig"] = sig
        w.case((version, sig))
        for good in (True, False):
            m = msg if good else bytes([msg[0] ^ 1]) + msg[1:]
            sh.write("s", sig)
            sh.reply("0x" + "0" * 64)
            p = sh.run("verifyonchain", "--data", m.hex(), "--pubkey", "pub", "--signature", "s", "--contractaddress", "0x" + "11" * 20, "--rpc", "http://localhost:1")
            if not p10.ok(w, p, "verifyonchain", case) or len(p.calls) != 1:
                continue
            w.ev("cli-" + version)
            c = p.calls[0][2:-2]
            args = [bytes.fromhex(c[1][2:]), bytes.fromhex(c[2][2:])] + [ast.literal_eval(x) for x in c[3:]]
            rec = c[0].startswith("recover")
            got = ch.call(at, c[0], *args, rets="address" if rec else "bool")
            case["why"] = "call made by verifyonchain"
            if good:
                expect(w, version, key if rec else True, got, case)
            elif got[0] and (got[1] == key if rec else got[1]):
                w.violation(version + "-accepts", "the contract accepts the call made for another message", case)
            # the command line reports the contract's answer
            sh.reply("0x%064x" % (int(got[1]) if got[0] else 0))
            p = sh.run("verifyonchain", "--data", m.hex(), "--pubkey", "pub", "--signature", "s", "--contractaddress", "0x" + "11" * 20, "--rpc", "http://localhost:1")
            yes = "0x" + "0" * 63 + "1" in p.stdout
            w.ev("cli-answer")
            if yes != good:
                w.violation("cli-answer", "verifyonchain prints %r for a signature that is %s" % (p.stdout[-100:], "valid" if good else "for another message"), case)
    sh.close()


def plan(R):
    build.prepare("shake", "eth")
    k = 1 if R.quick else 20
    t = [("python", dict(xof=x, count=(30 if x == "KeccakPRNG" else 12) * k, part=p)) for x in PLAIN for p in range(2)]
    t += [("recovery", dict(xof=x, count=(24 if x == "KeccakPRNG" else 10) * k)) for x in EPER]
    t += [("cref", dict(mode=m, count=60 * k)) for m in ("shake", "eth")]
    return t + [("cli", dict(version=v, count=2 * k)) for v in ("falcon", "ethfalcon", "epervier")]


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("X01", "one signature brought to a contract; distinct by the signature", {f.__name__: strip(f) for f in (python, recovery, cref, cli)}, plan,
               {"python-SHAKE": 20, "python-KeccakPRNG": 50, "epervier-SHAKE": 8, "epervier-KeccakPRNG": 20, "c-shake": 50, "c-eth": 50, "cli-falcon": 2,
                "cli-ethfalcon": 2, "cli-epervier": 2, "accepted": 200, "refused": 150},
               ["the contracts run translated from their source by vh/sol, not compiled by solc; gas is not modelled",
                "polyntt is a stand-in; cast is a stand-in whose recorded calls are made to the translated contract"])
