"""J01: falcon.js (the WebAssembly build in the tree) keeps the promises of the word-oriented interface.

falcon.js is a committed build product: it is run as it is, under node, one process per job."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import pool, ref, mon
from vh.ref import N, Q, BOUND

DRIVE = os.path.join(mon.VERIF, "js", "drive.js")
JS = os.path.join(mon.REPO, "falcon", "falcon.js")


class Node:
    def __init__(self):
        self.p = subprocess.Popen(["node", DRIVE, JS], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_CPU, (600, 600)))

    def ask(self, **r):
        r = {k: v.hex() if isinstance(v, (bytes, bytearray)) else v for k, v in r.items()}
        self.p.stdin.write(json.dumps(r).encode() + b"\n")
        self.p.stdin.flush()
        a = self.p.stdout.readline()
        if not a:
            return {"error": "the process ended with %s" % self.p.wait()}
        a = json.loads(a)
        return {k: bytes.fromhex(v) if k in ("pk", "sk", "sm", "m") else v for k, v in a.items()}

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def sound(w, a, what, case):
    """What every call owes: it returns, writes only where it may, leaves its inputs alone."""
    w.ev("calls")
    if "error" in a:
        w.violation("abort", "%s: %s" % (what, a["error"]), case)
        return False
    if not a["intact"]:
        w.violation("overflow", "%s wrote outside of its output" % what, case)
    if not a["inputs"]:
        w.violation("inputs", "%s changed its input" % what, case)
    return True


def key_ok(pk, sk):
    h = ref.pk_decode(pk, True)
    k = ref.sk_decode(sk)
    if h is None or k is None:
        return "does not decode"
    f, g, F = k
    if [int(v) % Q for v in ref.mulq(f, h)] != [int(v) % Q for v in g]:
        return "f*h is not g"
    iv = ref.invq(f)
    if iv is None:
        return "f is not invertible"
    G = ref.centre(ref.mulq(ref.mulq(F, iv), g))
    d = [a - b for a, b in zip(ref.mulz(f, G), ref.mulz(g, F))]
    if d != [Q] + [0] * (N - 1):
        return "fG - gF is not q"
    return None


def judge(w, J, sm, pk, what):
    exp, msg = ref.open_verdict(sm, pk, "shake", True)
    case = {"what": what, "sm": sm, "pk": pk}
    w.now(case)
    a = J.ask(op="open", sm=sm, pk=pk)
    w.ev("verdicts")
    w.ev("expect_" + exp)
    w.case((what, exp, sm[:8], sm[-8:], len(sm)))
    if not sound(w, a, "open", case):
        return None
    if (a["rc"] == 0) != (exp == "ok"):
        key = "verdict:" + what
        if len(sm) >= 42:
            sl = (sm[0] << 8) | sm[1]
            e = sm[len(sm) - sl:] if 0 < sl <= len(sm) - 42 else b""
            if sl == 1 and e == b"\x29":
                key = "header-only"
            elif len(e) == 1025 and e[0] == 0x29:
                ws = ref.unpack(e[1:], 16, N)[0]
                if any(v > 0x7FFF or 2047 <= v <= Q // 2 for v in ws):
                    key = "word-decoder"
        w.violation(key, "%s: sign_open returned %d, the predicate says %s" % (what, a["rc"], exp), case)
    elif a["rc"] == 0 and a.get("m") != msg:
        w.violation("message", "opened to other bytes than the signed message", case)
    elif a["rc"] != 0 and not a["clean"]:
        w.violation("released", "%s: output written although the signature was refused" % what, case)
    return a["rc"]


def genuine(w, n, part):
    J = Node()
    rng = w.rng
    pks = {}
    for i in range(n):
        ln = rng.choice([32, 32, 33, 47, 48, 64, 135, 136, 137, 300])
        seed = rng.randbytes(ln)
        case = {"seed": seed}
        w.now(case)
        a = J.ask(op="seedpair", seed=seed)
        if not sound(w, a, "keypair_from_seed", case):
            return
        if a["rc"]:
            w.violation("keygen", "keypair_from_seed returned %d" % a["rc"], case)
            continue
        pk, sk = a["pk"], a["sk"]
        why = key_ok(pk, sk)
        w.ev("keys")
        if why:
            w.violation("key", "key pair from a seed: " + why, case)
            continue
        b = J.ask(op="seedpair", seed=seed)
        if (b.get("pk"), b.get("sk")) != (pk, sk):
            w.violation("determinism", "one seed, two key pairs", case)
        if pk in pks:
            w.violation("seed-ignored", "two seeds, one key pair", {"seeds": [seed, pks[pk]]})
        pks[pk] = seed
        j = rng.randrange(ln)
        s2 = bytes(v ^ (1 << rng.randrange(8)) if k == j else v for k, v in enumerate(seed))
        b = J.ask(op="seedpair", seed=s2)
        w.ev("seed_changes")
        if b.get("pk") == pk:
            w.violation("seed-ignored", "byte %d of the seed does not count" % j, {"seeds": [seed, s2]})
        short = rng.randbytes(rng.choice([0, 1, 16, 31]))
        b = J.ask(op="seedpair", seed=short)
        w.ev("short_seeds")
        if sound(w, b, "keypair_from_seed", {"seed": short}) and b["rc"] == 0:
            w.violation("short-seed", "a seed of %d bytes was accepted" % len(short), {"seed": short})
        salts = set()
        for ml in (0, 1, 96, 97, rng.randrange(300), rng.randrange(5000)):
            msg = rng.randbytes(ml)
            case = {"sk": sk, "msg": msg}
            w.now(case)
            a = J.ask(op="sign", msg=msg, sk=sk)
            if not sound(w, a, "sign", case):
                return
            w.ev("signatures")
            if a["rc"] or "sm" not in a:
                w.violation("sign", "sign returned %d, length %d" % (a["rc"], a["len"]), case)
                continue
            sm = a["sm"]
            if sm[42:42 + ml] != msg or len(sm) != 42 + ml + 1025:
                w.violation("layout", "signed message of %d bytes for a message of %d" % (len(sm), ml), case)
                continue
            if sm[2:42] in salts:
                w.violation("salt-twice", "one process used a salt twice", case)
            salts.add(sm[2:42])
            if ref.open_verdict(sm, pk, "shake", True)[0] != "ok":
                w.violation("unaccepted", "the reference verifier refuses a signature made by falcon.js", dict(case, sm=sm))
            judge(w, J, sm, pk, "genuine")
            for _ in range(4):
                b = bytearray(sm)
                k = rng.randrange(2, len(b))
                b[k] ^= 1 << rng.randrange(8)
                judge(w, J, bytes(b), pk, "bitflip")
            b = sm[:rng.choice([0, 1, 41, 42, 43, len(sm) - 1, rng.randrange(len(sm))])]
            judge(w, J, b, pk, "cut")
            judge(w, J, sm + bytes(rng.randrange(1, 3)), pk, "extend")
            for sl in (0, 1, 2, 1024, 1026, len(sm) - 42, len(sm) - 41, 65535):
                judge(w, J, (sl & 0xFFFF).to_bytes(2, "big") + sm[2:], pk, "siglen")
            for e in (b"", b"\x29", b"\x29\x00", b"\x2a", sm[-1025:-1023], b"\x09" + sm[-1024:], b"\x2a" + sm[-1024:]):
                judge(w, J, len(e).to_bytes(2, "big") + sm[2:42 + ml] + e, pk, "resig")
            p = bytearray(pk)
            k = rng.randrange(N)
            v = (p[1 + 2 * k] << 8) | p[2 + 2 * k]
            x = rng.choice(["head", "alias", "big"])
            if x == "head":
                p[0] = rng.choice([0, 8, 10, 0x89])
            else:
                p[1 + 2 * k:3 + 2 * k] = ((v + Q) if x == "alias" else rng.choice([Q, 0x8000 | v, 65535])).to_bytes(2, "big")
            judge(w, J, sm, bytes(p), "key")
    bad = bytearray(sk)
    for k, v in ((0, 0x58), (0, 0xD9), (0, 0)):
        bad[k] = v
        a = J.ask(op="sign", msg=b"x", sk=bytes(bad))
        w.ev("bad_private_keys")
        if sound(w, a, "sign", {"sk": bytes(bad)}) and a["rc"] == 0:
            w.violation("private-key", "signed with a private key whose header is %d" % v, {"sk": bytes(bad)})
    J.close()


def craft(w, n, part):
    J = Node()
    rng = w.rng
    for i in range(n):
        nonce, msg = rng.randbytes(40), rng.randbytes(rng.choice([0, 1, 40, 96, 97, rng.randrange(600)]))
        hm = ref.hash_to_point(nonce + msg, "shake")
        what = rng.choice(["norm", "norm", "norm", "corner", "word", "garbage", "alias"])
        if what == "norm" or what == "alias":
            d = rng.choice([0, 1, -1, 2, -2, 1000, -1000])
            if what == "alias":
                d = -1000
            s1, s2, h = ref.forge(rng, hm, target=BOUND + d)
        elif what in ("corner", "word"):
            s2 = [0] * N
            for _ in range(rng.choice([1, 1, 2])):
                s2[rng.randrange(N)] = rng.choice([2046, -2046, 1, -1, 128, -127, 2000] if what == "corner" else [2047, 3000, 5800, -5800, 2048])
            f = ref.forge(rng, hm, s2=s2, scale=rng.choice([1, 100]))
            if f is None:
                continue
            s1, s2, h = f
        else:
            h = [rng.randrange(Q) for _ in range(N)]
            s2 = [int(rng.gauss(0, 165)) for _ in range(N)]
        ws = [int(v) % Q for v in s2]
        if what == "alias":
            k = rng.randrange(N)
            ws[k] = rng.choice([ws[k] + Q, ws[k] + 4 * Q if ws[k] + 4 * Q < 65536 else ws[k] + Q, (int(s2[k]) % 65536) if s2[k] < 0 else ws[k] + Q])
        e = b"\x29" + ref.pack(ws, 16)
        r = judge(w, J, len(e).to_bytes(2, "big") + nonce + msg + e, ref.pk_encode(h, True), what)
        if what == "norm":
            w.ev("crafted_" + ("ok" if r == 0 else "no"))
        if i < 2:
            w.sample({"what": what, "rc": r})
    J.close()


def fresh(w, part):
    """Two processes must not make the same keys or the same salts."""
    seen = {}
    salts = {}
    for i in range(3):
        J = Node()
        for j in range(3):
            w.now({"process": i, "pair": j})
            a = J.ask(op="keypair")
            if not sound(w, a, "keypair", {"process": i}):
                return
            w.ev("fresh_keys")
            w.case((i, j))
            why = "returned %d" % a["rc"] if a["rc"] else key_ok(a["pk"], a["sk"])
            if why:
                w.violation("key", "key pair: " + why, {"process": i})
                continue
            if a["pk"] in seen:
                w.violation("process-key" if seen[a["pk"]] != i else "key-twice", "processes %d and %d made the same key pair" % (seen[a["pk"]], i),
                            {"call": "keypair", "number": j, "pk": a["pk"]})
            seen[a["pk"]] = i
        J.close()
        J = Node()
        k = J.ask(op="seedpair", seed=bytes(range(32)))
        for j in range(3):
            a = J.ask(op="sign", msg=b"message %d" % i, sk=k["sk"])
            w.ev("fresh_salts")
            s = a["sm"][2:42]
            if s in salts:
                w.violation("process-salt" if salts[s] != i else "salt-twice", "processes %d and %d signed with the same salt" % (salts[s], i), {"call": "sign", "number": j, "salt": s})
            salts[s] = i
        J.close()


def plan(R):
    if not os.path.exists(JS):
        R.inconclusive.append("no falcon.js in the tree")
        return []
    q = R.quick
    t = [("fresh", dict(part=0), "")]
    for p in range(3 if q else 6):
        t.append(("genuine", dict(n=6 if q else 60, part=p), ""))
        t.append(("craft", dict(n=300 if q else 5000, part=p), ""))
    return t


if __name__ == "__main__":
    pool.check("J01", "a call of falcon.js under node: a key pair, a signature, or a verdict on a (public key, signed message) pair, by mutation class",
               {"genuine": genuine, "craft": craft, "fresh": fresh}, plan,
               {"verdicts": 1500, "signatures": 80, "keys": 15, "crafted_ok": 60, "crafted_no": 60, "expect_ok": 150, "short_seeds": 10,
                "fresh_keys": 9, "fresh_salts": 9},
               ["falcon.js is run as committed; it cannot be rebuilt here (no emcc), so defects in it that the C sources no longer have are listed as known findings"])
