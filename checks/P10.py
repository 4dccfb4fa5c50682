"""P10: the Python command line - keys, signatures, transactions and the calls it makes to the contracts."""
import ast, json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, mon, pool, pykeys, pyref, pyspec, ref
from vh.ref import Q

VERSIONS = {"falcon": ("plain", "SHAKE"), "ethfalcon": ("plain", "KeccakPRNG"), "epervier": ("epervier", "SHAKE"), "falconrec": ("recovery", "KeccakPRNG")}
N = 512
SEEDS = [17, 18, 5, 36, 21, 24, 11, 31, 27, 33, 32, 22, 28, 39]  # few rejected candidates: the hash is slow in Python
FAKE = """#!%s
import json, os, sys
d = os.environ["CAST_DIR"]
with open(os.path.join(d, "calls"), "a") as f:
    f.write(json.dumps(sys.argv[1:]) + "\\n")
try:
    print(open(os.path.join(d, "reply")).read())
except OSError:
    print("0x" + "0" * 63 + "1")
"""


class Shell:
    """The command line in a directory of its own, with a stand-in for cast that records its arguments."""

    def __init__(self, tag):
        self.d = os.path.join(build.scratch(), "cli-%d-%s" % (os.getpid(), tag))
        os.makedirs(os.path.join(self.d, "bin"))
        with open(os.path.join(self.d, "bin", "cast"), "w") as f:
            f.write(FAKE % sys.executable)
        os.chmod(os.path.join(self.d, "bin", "cast"), 0o755)
        self.env = dict(os.environ, CAST_DIR=self.d, PATH=os.path.join(self.d, "bin") + ":/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1",
                        PYTHONPATH=os.path.join(mon.VERIF, "stubs"))

    def run(self, *a, script="sign_cli.py", timeout=400):
        for f in ("calls",):
            if os.path.exists(os.path.join(self.d, f)):
                os.unlink(os.path.join(self.d, f))
        try:
            p = subprocess.run([sys.executable, os.path.join(pyref.ROOT, script)] + list(a), cwd=self.d, env=self.env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        p.calls = []
        if os.path.exists(os.path.join(self.d, "calls")):
            p.calls = [json.loads(x) for x in open(os.path.join(self.d, "calls"))]
        return p

    def read(self, f):
        with open(os.path.join(self.d, f)) as o:
            return o.read()

    def write(self, f, s):
        with open(os.path.join(self.d, f), "w") as o:
            o.write(s)

    def reply(self, s):
        self.write("reply", s)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def fields(text):
    return {k.strip(): v.strip() for k, v in (l.split("=", 1) for l in text.splitlines() if "=" in l and not l.startswith("#"))}


def words(v):
    """32 words as 512 values of 16 bits, the first one lowest."""
    return [w >> (16 * i) & 0xffff for w in v for i in range(16)]


def valid(version, key, msg, sig):
    """key: h, or the address."""
    kind, xof = VERSIONS[version]
    if kind == "plain":
        return pyspec.verdict(N, key, msg, sig, xof)[0] == "ok"
    return pyspec.recover(N, msg, sig, xof, kind) == ("ok", key)


def pubkey(version, polys):
    h = [int(v) for v in ref.mulq(polys[1], ref.invq(polys[0]))]
    kind = VERSIONS[version][0]
    return h if kind == "plain" else pyspec.address(ref.ntt(h) if kind == "epervier" else h)


def keyfile(version, polys):
    return "# private key\nn = %d\nf = %s\ng = %s\nF = %s\nG = %s\nversion = %s\n" % ((N,) + tuple(map(str, polys)) + (version,))


def pubfile(version, key):
    return "# public key\nn = %d\npk = %s\nversion = %s\n" % (N, key, version)


def ok(w, p, what, case):
    w.ev("commands")
    if p is None:
        w.violation("hang", "%s does not return" % what, case)
        return False
    if p.returncode:
        w.violation("command-fails", "%s ends with %d: %s" % (what, p.returncode, p.stderr[-300:]), case)
        return False
    return True


def functions():
    """name(types) of what the contracts' sources declare."""
    out = set()
    for f in os.listdir(os.path.join(mon.REPO, "src")):
        if f.endswith(".sol"):
            s = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(mon.REPO, "src", f)).read(), flags=re.S)
            for m in re.finditer(r"function\s+(\w+)\s*\(([^)]*)\)", s):
                out.add("%s(%s)" % (m.group(1), ",".join(a.split()[0] for a in m.group(2).split(",") if a.split())))
    return out


def onchain(w, sh, version, polys, key, msg, sig, send, case):
    """The call made to the contract carries this message, salt, signature and key."""
    h = [int(v) for v in ref.mulq(polys[1], ref.invq(polys[0]))]
    addr, rpc, pv = "0x" + w.rng.randbytes(20).hex(), "http://localhost:%d" % w.rng.randrange(1, 65536), "0x" + w.rng.randbytes(32).hex()
    for action in (("verifyonchainsend" if send else "verifyonchain"), ("recoveronchainsend" if send else "recoveronchain")):
        if action.startswith("recover") != (version == "epervier") and not (action == "verifyonchain" and version == "epervier"):
            continue
        a = [action, "--data", msg.hex(), "--pubkey", "pub", "--signature", "s", "--contractaddress", addr, "--rpc", rpc]
        if send:
            a += ["--privatekey", pv]
        if version == "epervier":
            reply = w.rng.choice([key, key, key ^ 1 << w.rng.randrange(160), key ^ 1 << w.rng.choice([32, 64, 128, 159, 160, 192, 255]), 0])
            sh.reply("0x%064x" % reply)
            if action == "verifyonchain":
                for other in (key ^ 1 << w.rng.randrange(32, 160), key ^ 1 << w.rng.choice([160, 192, 255])):
                    sh.reply("0x%064x" % other)
                    p = sh.run(*a)
                    w.ev("other-address-recovered")
                    if p is None or "0x" + "0" * 63 + "1" in p.stdout:
                        w.violation("onchain-answer", "verifyonchain confirms the recovered address %x for the key %x" % (other, key), case)
                sh.reply("0x%064x" % reply)
        p = sh.run(*a)
        if not ok(w, p, action, case):
            continue
        w.ev(action)
        if version == "epervier" and action == "verifyonchain":
            if ("0x" + "0" * 63 + "1" in p.stdout) != (reply == key):
                w.violation("onchain-answer", "verifyonchain says %r for the recovered address %x and the key %x" % (p.stdout[-100:], reply, key), case)
        if len(p.calls) != 1:
            w.violation("onchain-call", "%s makes %d calls" % (action, len(p.calls)), case)
            continue
        c = p.calls[0]
        want = ["send", "--private-key", pv, addr] if send else ["call", addr]
        fn = "recover(bytes,bytes,uint256[],uint256[],uint256)" if version == "epervier" else "verify(bytes,bytes,uint256[],uint256[])"
        k = len(want)
        if c[:k] != want or c[-2:] != ["--rpc-url", rpc] or len(c) != k + 2 + (6 if version == "epervier" else 5):
            w.violation("onchain-call", "%s calls %r" % (action, [x[:80] for x in c]), case)
            continue
        if c[k] != fn or fn not in functions():
            w.violation("onchain-call", "%s calls %r, which no contract has" % (action, c[k]), case)
            continue
        if bytes.fromhex(c[k + 1][2:]) != msg or c[k + 1][:2] != "0x" or bytes.fromhex(c[k + 2][2:]) != sig[1:41]:
            w.violation("onchain-message", "%s sends another message or salt" % action, case)
        u, v = words(ast.literal_eval(c[k + 3])), words(ast.literal_eval(c[k + 4]))
        if version == "epervier":
            s = pyspec.decomp(sig[41:-3 * N], 2 * pyspec.SIGLEN[N] - 41, 2 * N)
            hint = 1
            for x in ref.ntt(s[N:]):
                hint = hint * int(x) % Q
            hint = pow(hint, -1, Q)
            if u != [x % Q for x in s[:N]] or v != [x % Q for x in s[N:]] or int(c[k + 5]) % Q != hint:
                w.violation("onchain-signature", "%s sends another signature or hint" % action, case)
        else:
            s = pyspec.decomp(sig[41:], pyspec.SIGLEN[N] - 41, N)
            if u != [x % Q for x in s] or v != [int(x) for x in ref.ntt(h)]:
                w.violation("onchain-signature", "%s sends another signature or key" % action, case)
        w.case((action, sig))
        w.sample({"action": action, "call": [x[:60] for x in c]})


def session(w, version, count, genkeys=False):
    """A user's session: keys, signatures, verifications, calls to the contract."""
    sh = Shell("%s-%d" % (version, genkeys))
    case = {"version": version}
    if genkeys:
        if not ok(w, sh.run("genkeys", "--version", version), "genkeys", case):
            return sh.close()
        w.ev("genkeys")
        d, e = fields(sh.read("private_key.pem")), fields(sh.read("public_key.pem"))
        polys = [ast.literal_eval(d[k]) for k in "fgFG"]
        polys = [[int(ref.centre(x % Q)) if abs(x) > Q // 2 else x for x in p] for p in polys]
        if not pykeys.check(polys) or int(d["n"]) != N or d["version"] != version or e["version"] != version or int(e["n"]) != N:
            w.violation("genkeys", "genkeys writes a private key that is no NTRU basis, or another version", case)
        key = pubkey(version, polys)
        if ast.literal_eval(e["pk"]) != key:
            w.violation("genkeys", "the public key file does not belong to the private key file", case)
        sh.write("priv", sh.read("private_key.pem"))
        sh.write("pub", sh.read("public_key.pem"))
    else:
        polys = pykeys.polys(N, w.rng)
        key = pubkey(version, polys)
        sh.write("priv", keyfile(version, polys))
        sh.write("pub", pubfile(version, key))
    other = pubkey(version, pykeys.polys(N, w.rng))
    sh.write("pub2", pubfile(version, other))
    for i in range(count):
        msg = w.rng.randbytes([32, 1, 200][i] if i < 3 else w.rng.randrange(1, 400))
        case = {"version": version, "polys": polys, "msg": msg}
        w.now(case)
        if not ok(w, sh.run("sign", "--data", msg.hex(), "--privkey", "priv"), "sign", case):
            continue
        w.ev("sign-" + version)
        sig = bytes.fromhex(sh.read("sig"))
        case["sig"] = sig
        w.case((version, sig))
        if not valid(version, key, msg, sig):
            w.violation("sign", "the signature written by sign is not valid (%s)" % version, case)
        forms = [("genuine", sig, msg, "pub"), ("other-key", sig, msg, "pub2"), ("other-message", sig, bytes([msg[0] ^ 1 << w.rng.randrange(8)]) + msg[1:], "pub")]
        b = bytearray(sig)
        j = w.rng.choice([0, w.rng.randrange(1, 41), w.rng.randrange(41, 600)])
        b[j] ^= 1 << w.rng.randrange(8)
        forms.append(("flipped", bytes(b), msg, "pub"))
        if i == 0:
            forms.append(("cut", sig[:w.rng.randrange(len(sig))], msg, "pub"))
        for k, s, m, f in forms:
            sh.write("s", s.hex())
            p = sh.run("verify", "--data", m.hex(), "--pubkey", f, "--signature", "s")
            w.ev("verify-" + k)
            if p is None:
                w.violation("hang", "verify does not return", case)
                continue
            said, want = p.stdout.strip().splitlines()[-1:] == ["Signature is valid."], valid(version, key if f == "pub" else other, m, s)
            if said != want:
                w.violation("verify", "verify says %r %r, the signature (%s, %s) is %s" % (p.stdout[-100:], p.stderr[-200:], k, version, "valid" if want else "invalid"), dict(case, form=k))
            elif not want and p.returncode == 0 and "Invalid signature." not in p.stdout:
                w.violation("verify", "verify says %r for an invalid signature" % p.stdout[-100:], dict(case, form=k))
        sh.write("s", sig.hex())
        if version != "falconrec":
            for send in (False, True):
                onchain(w, sh, version, polys, key, msg, sig, send, case)
    if version in ("falcon", "ethfalcon"):
        for i in range(max(1, count // 2)):
            t = [w.rng.getrandbits(w.rng.choice([1, 8, 64, 256])), w.rng.getrandbits(160), w.rng.randbytes(w.rng.choice([1, 4, 32, 33, 68, 300])), w.rng.getrandbits(w.rng.choice([1, 60, 256]))]
            case = {"version": version, "polys": polys, "tx": [hex(t[0]), hex(t[1]), t[2].hex(), hex(t[3])]}
            p = sh.run("sign_tx", "--nonce", "%x" % t[0], "--to", "%x" % t[1], "--data", t[2].hex(), "--value", "%x" % t[3], "--privkey", "priv")
            if not ok(w, p, "sign_tx", case):
                continue
            w.ev("sign_tx")
            d = fields(p.stdout)
            th = txhash(*t)
            s2, salt = words(ast.literal_eval(d["S2"])), bytes.fromhex(d["SALT"][2:])
            if d["TX_HASH"] != "0x" + th.hex():
                w.violation("tx-hash", "sign_tx hashes the transaction to %s" % d["TX_HASH"], case)
            if words(ast.literal_eval(d["PK"])) != [int(x) for x in ref.ntt(key)]:
                w.violation("tx-key", "sign_tx prints another key", case)
            s2 = [int(x) for x in ref.centre(s2)]
            c = pyspec.h2p(VERSIONS[version][1], salt, th, N)
            s1 = ref.centre(ref.np.asarray(c) - ref.mulq(s2, key))
            if ref.norm2(s1, s2) > pyspec.BOUND[N] or len(salt) != 40:
                w.violation("tx-signature", "the signature printed by sign_tx is not valid for the hash of the transaction", case)
    sh.close()


def txhash(nonce, to, data, value):
    u = lambda v: v.to_bytes(32, "big")
    return ref.keccak256(u(nonce) + u(to) + u(128) + u(value) + u(len(data)) + data + bytes(-len(data) % 32))


def transactions(w, count):
    import sign_cli
    r = w.rng
    seen = {}
    for t in ((1 << 256, 1, b"", 0), (0, 1 << 160, b"", 0), (0, (1 << 160) + 5, b"ab", 7), (0, 1 << 255, b"", 0), (0, 1, b"", 1 << 256), (-1, 1, b"", 0), (0, -1, b"", 0)):
        v, e = pyref.call(sign_cli.transaction_hash, *t)
        w.ev("transactions-refused")
        if e is None:
            w.violation("tx-range", "transaction_hash takes a number its field cannot hold", {"tx": repr(t)})
    for i in range(count):
        t = (r.getrandbits(r.choice([0, 1, 8, 64, 255, 256])), r.getrandbits(r.choice([0, 8, 159, 160])), r.randbytes(r.choice([0, 1, 31, 32, 33, 64, 103, 104, 105, r.randrange(500)])),
             r.getrandbits(r.choice([0, 1, 60, 256])))
        case = {"tx": [hex(t[0]), hex(t[1]), t[2].hex(), hex(t[3])]}
        w.now(case)
        v, e = pyref.call(sign_cli.transaction_hash, *t)
        w.ev("transactions")
        w.case(t)
        if v is None or bytes(v) != txhash(*t):
            w.violation("tx-hash", "transaction_hash is not keccak256(abi.encode(nonce, to, data, value)): %r %r" % (v and bytes(v).hex(), e), case)
        if seen.setdefault(v, t) != t:
            w.violation("tx-hash", "two transactions have one hash", case)


def derandomized(w, version, count):
    """The same key and message give the same signature; anything else gives unrelated randomness, known to the key's owner only."""
    import sign_cli, falcon, falcon_epervier, falcon_recovery
    r = w.rng
    kind, xof = VERSIONS[version]
    S = {"plain": falcon.SecretKey, "epervier": falcon_epervier.EpervierSecretKey, "recovery": falcon_recovery.RecoveryModeSecretKey}[kind]
    reads = []

    def key(polys):
        with pyref.quiet():
            k = S(N, [list(p) for p in polys])
        f = k.sign

        def sign(*a, randombytes=None, **kw):
            reads.clear()

            def rb(n):
                b = randombytes(n)
                reads.append(bytes(b))
                return b
            return f(*a, randombytes=rb, **kw)
        k.sign = sign
        return k
    salts, blocks = {}, {}
    msgs = []
    for i in range(count):
        if i % 4 == 0:
            polys = pykeys.polys(N, r)
            sk, pk = key(polys), pubkey(version, polys)
            msg = r.randbytes(r.choice([0, 1, 32, 100, 135, 136, 300, 1025, r.randrange(9000)]))
            same = list(polys)
        elif i % 4 == 1:  # another secret key of the same public key
            j = r.randrange(1, 2 * N)
            same = [pykeys.shift(p, e) for p, e in zip(polys, (j, j, -j, -j))]
            sk = key(same)
            w.ev("same-public-key")
        elif i % 4 == 2:  # a message that differs in one bit
            msg = bytearray(msg or b"\0")
            msg[r.choice([r.randrange(len(msg)), -1 - r.randrange(min(3, len(msg))), len(msg) - 1])] ^= 1 << r.randrange(8)
            msg = bytes(msg)
            w.ev("one-bit")
        else:
            msg = r.choice([msg + b"\0", msg[:-1], b"\0" + msg])
            w.ev("longer-shorter")
        if (repr(same), msg) in msgs:
            continue
        msgs.append((repr(same), msg))
        case = {"version": version, "polys": same, "msg": msg}
        w.now(case)
        sig, e = pyref.call(sign_cli.signature, sk, msg, version)
        w.ev("derandomized")
        w.case((version, i, msg, repr(same)))
        if e is not None:
            w.violation("sign-fails", "signature() fails: %r" % e, case)
            continue
        if not valid(version, pk, msg, sig):
            w.violation("sign", "signature() is not valid (%s)" % version, case)
        if sig[1:41] in salts and salts[sig[1:41]] != (repr(same), msg):
            w.violation("randomness", "two different (secret key, message) pairs get one salt", case)
        salts[sig[1:41]] = (repr(same), msg)
        data = b"".join(reads)
        for k in range(0, len(data) - 15):
            b = data[k:k + 16]
            o = blocks.setdefault(b, (i, k))
            if o != (i, k):
                w.violation("randomness", "the random bytes of signature %d repeat those of signature %d (%s)" % (i, o[0], version), case)
                break
        if len(data) >= 40 and abs(sum(bin(x).count("1") for x in data[:88]) - 4 * len(data[:88])) > 6.5 * (2 * len(data[:88])) ** .5:
            w.violation("randomness", "the random bytes of a signature are biased: %s" % data[:88].hex(), case)
        if i % 3 == 0:
            again, e = pyref.call(sign_cli.signature, key(same), msg, version)
            w.ev("again")
            if again != sig:
                w.violation("deterministic", "signature() gives two signatures for one key and message (%s)" % version, case)


def files(w, count):
    """Key and signature files hold what was saved."""
    import sign_cli, falcon, falcon_epervier, falcon_recovery
    r = w.rng
    d = os.path.join(build.scratch(), "files-%d" % os.getpid())
    os.makedirs(d)
    p = os.path.join(d, "x")
    for i in range(count):
        version = list(VERSIONS)[i % 4]
        n = r.choice(pyspec.DEGREES[2:])
        kind = VERSIONS[version][0]
        S, P = {"plain": (falcon.SecretKey, falcon.PublicKey), "epervier": (falcon_epervier.EpervierSecretKey, falcon_epervier.EpervierPublicKey),
                "recovery": (falcon_recovery.RecoveryModeSecretKey, falcon_recovery.RecoveryModePublicKey)}[kind]
        polys = pykeys.polys(n, r)
        if i % 3 == 0:  # another completion of the same (f, g), with large coefficients
            k, j = r.choice([-1, 1]) * r.choice([1, 2, 5, 40]), r.randrange(n)
            polys = polys[:2] + [[int(b) + k * int(a) for a, b in zip(pykeys.shift(x, j), y)] for x, y in zip(polys[:2], polys[2:])]
            w.ev("large-coefficients")
        case = {"version": version, "n": n}
        w.now(case)
        with pyref.quiet():
            sk = S(n, [list(x) for x in polys])
            pk = P(n, sk.h if kind == "plain" else sk.pk)
        for obj, save, load, attrs in ((sk, sign_cli.save_sk, sign_cli.load_sk, ("n", "f", "g", "F", "G", "h")), (pk, sign_cli.save_pk, sign_cli.load_pk, ("n", "pk"))):
            if os.path.exists(p):
                os.unlink(p)
            _, e = pyref.call(save, obj, p, version)
            v, e2 = pyref.call(load, p)
            w.ev("key-files")
            w.case((version, n, save.__name__, i))
            if v is None or type(v[0]) is not type(obj) or v[1] != version or any(
                    (list(map(int, getattr(v[0], a))) if a not in ("n",) and not isinstance(getattr(obj, a), int) else getattr(v[0], a)) !=
                    (list(map(int, getattr(obj, a))) if a not in ("n",) and not isinstance(getattr(obj, a), int) else getattr(obj, a)) for a in attrs):
                w.violation("key-file", "%s and %s do not give the key back: %r %r" % (save.__name__, load.__name__, e, e2), case)
        s = r.randbytes(r.choice([0, 1, 666, 1291, 2828]))
        pyref.call(sign_cli.save_signature, s, p)
        v, e = pyref.call(sign_cli.load_signature, p)
        w.ev("signature-files")
        if v != s:
            w.violation("signature-file", "a signature of %d bytes does not come back: %r" % (len(s), e), case)
    shutil.rmtree(d, ignore_errors=True)


def sig_sol(w, mode, seed):
    """sig_sol.py prints abi.encode(uint256[32] key, bytes salt, uint256[32] s2) of a valid signature."""
    sh = Shell("sol-%s-%d" % (mode, seed))
    msg, sd = random.Random(seed).randbytes(32), w.rng.choice(SEEDS).to_bytes(32, "big")
    case = {"mode": mode, "msg": msg, "seed": sd}
    w.now(case)
    p = sh.run("0x" + msg.hex(), mode, sd.hex(), script="sig_sol.py")
    if ok(w, p, "sig_sol", case):
        w.ev("sig_sol-" + mode)
        w.case((mode, seed))
        b = bytes.fromhex(p.stdout.strip())
        u = [int.from_bytes(b[i:i + 32], "big") for i in range(0, 65 * 32, 32)]
        if u[32] != 65 * 32 or len(b) != 65 * 32 + 32 + 64:
            w.violation("sig_sol", "not the encoding of (uint256[32], bytes, uint256[32])", case)
        else:
            salt, h = b[66 * 32:66 * 32 + 40], ref.intt(words(u[:32]))
            s2 = [int(x) for x in ref.centre(words(u[33:65]))]
            c = pyspec.h2p({"ETH": "KeccakPRNG", "NIST": "SHAKE"}[mode], salt, msg, N)
            s1 = ref.centre(ref.np.asarray(c) - ref.mulq(s2, h))
            if int.from_bytes(b[65 * 32:66 * 32], "big") != 40 or max(words(u[:32]) + words(u[33:65])) >= Q or ref.norm2(s1, s2) > pyspec.BOUND[N]:
                w.violation("sig_sol", "the encoded signature is not valid (%s)" % mode, case)
    sh.close()


def plan(R):
    k = 1 if R.quick else 10
    r = R.rng
    t = [("sig_sol", dict(mode=m, seed=r.getrandbits(30))) for m in ("ETH", "NIST") for _ in range(1 if R.quick else 6)]
    t += [("session", dict(version=v, count=3 * k, genkeys=g)) for v in VERSIONS for g in (True, False)]
    t += [("derandomized", dict(version=v, count=16 * k)) for v in VERSIONS]
    t += [("transactions", dict(count=200 * k)), ("files", dict(count=40 * k))]
    return t


if __name__ == "__main__":
    pool.check("P10", "one command or call of the command line; distinct by key, message and action", {f.__name__: f for f in (session, transactions, derandomized, files, sig_sol)}, plan,
               {"sign-falcon": 5, "sign-ethfalcon": 5, "sign-epervier": 5, "sign-falconrec": 5, "genkeys": 4, "verify-genuine": 20, "verify-flipped": 20, "verify-other-key": 20,
                "verify-other-message": 20, "verifyonchain": 15, "verifyonchainsend": 10, "recoveronchain": 5, "recoveronchainsend": 5, "sign_tx": 4, "transactions": 150,
                "derandomized": 50, "same-public-key": 15, "one-bit": 15, "again": 20, "key-files": 70, "large-coefficients": 12, "transactions-refused": 7, "signature-files": 35, "sig_sol-ETH": 1, "sig_sol-NIST": 1},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)", "cast is replaced by a stand-in that records its arguments"])
