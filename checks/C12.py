"""C12: fresh randomness: every nonce and signing seed is drawn anew, in full, and nothing else decides the output."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib, frm, cbuf


def fresh(w, mode, nkeys, n, part):
    L = Lib(mode)
    rng = w.rng
    for _ in range(nkeys):
        # key generation: all the entropy drawn decides, and only it
        for zk in (False, True):
            base = rng.getrandbits(63)
            L.seed(base)
            L.keypair(zk)
            drawn = sum(L.rb_log())
            w.ev("keygen_draws")
            if drawn < 32:
                w.violation("keygen-entropy", "key generation draws %d bytes" % drawn, {"zk": zk})
                continue
            script = rng.randbytes(drawn)
            L.seed(base)
            L.script(script)
            r, pk, sk = L.keypair(zk)
            L.seed(base + 1)
            L.script(script)
            if L.keypair(zk)[1:] != (pk, sk):
                w.violation("keygen-extra", "something besides the drawn bytes decides the key", {"zk": zk, "script": script})
            for j in sorted({0, drawn - 1, rng.randrange(drawn), rng.randrange(drawn)}):
                s2 = bytearray(script)
                s2[j] ^= 1 << rng.randrange(8)
                L.seed(base)
                L.script(bytes(s2))
                w.ev("keygen_byte_flips")
                w.case((mode, "k", zk, script[:8], j))
                if L.keypair(zk)[2] == sk:
                    w.violation("keygen-unused", "entropy byte %d of %d does not matter" % (j, drawn), {"zk": zk, "script": script})
        L.seed(rng.getrandbits(63))
        _, pk, sk = L.keypair(False)
        for kind in ("nist", "zknox", "epervier"):
            seen = {}
            L.seed(rng.getrandbits(63))
            prev_total = 0
            msg = rng.randbytes(32)
            for i in range(n):
                if rng.random() < .5:
                    msg = rng.randbytes(rng.choice([0, 5, 32, 100]))
                w.now({"mode": mode, "kind": kind, "i": i})
                r, sm = L.sign(kind, msg, sk)
                tot = L.c.rb_bytes_used()
                draw = tot - prev_total
                prev_total = tot
                w.ev("signatures")
                if draw < 40 + 32:
                    w.violation("sign-entropy", "%s signing draws %d bytes" % (kind, draw), {"mode": mode, "i": i})
                nonce = sm[2:42]
                if nonce in seen:
                    w.violation("nonce-reuse", "%s repeats a nonce (signatures %d and %d)" % (kind, seen[nonce], i), {"mode": mode, "nonce": nonce})
                for q in range(0, 40, 8):
                    k8 = ("w", q, nonce[q:q + 8])
                    if k8 in seen:
                        w.violation("nonce-part", "%s: part %d of the nonce repeats" % (kind, q), {"mode": mode, "nonce": nonce})
                    seen[k8] = i
                seen[nonce] = i
                w.case((mode, kind, nonce))
            # which bytes matter, and that nothing else does
            L.seed(7)
            L.sign(kind, b"m", sk)
            log = L.rb_log()
            total = sum(log)
            for _ in range(max(2, n // 20)):
                msg = rng.randbytes(20)
                script = rng.randbytes(total)
                L.seed(1)
                L.script(script)
                r, sm = L.sign(kind, msg, sk)
                case = {"mode": mode, "kind": kind, "script": script, "msg": msg}
                if sm[2:42] not in script:
                    w.violation("nonce-source", "%s: the nonce is not fresh random bytes" % kind, case)
                L.seed(2)
                L.script(script)
                L.open(kind, sm, pk) if kind == "nist" else None
                r, smb = L.sign(kind, msg, sk)
                w.ev("replays")
                if smb != sm:
                    w.violation("sign-extra", "%s: something besides key, message and drawn bytes decides the signature" % kind, case)
                L.seed(1)
                L.script(script)
                r, smc = L.sign(kind, msg + b"!", sk)
                if smc[2:42] != sm[2:42]:
                    w.violation("nonce-message", "%s: nonce depends on the message" % kind, case)
                for j in sorted({0, 39, 40, total - 1} | {rng.randrange(total) for _ in range(4)}):
                    s2 = bytearray(script)
                    s2[j] ^= 1 << rng.randrange(8)
                    L.seed(1)
                    L.script(bytes(s2))
                    r, smd = L.sign(kind, msg, sk)
                    w.ev("sign_byte_flips")
                    if smd == sm:
                        w.violation("sign-unused", "%s: drawn byte %d of %d does not matter" % (kind, j, total), case)
                    # the signature vector itself must change whichever byte changed
                    if smd[42 + len(msg):] == sm[42 + len(msg):]:
                        w.violation("seed-unused", "%s: drawn byte %d leaves the vector unchanged" % (kind, j), case)
            w.sample({"mode": mode, "kind": kind, "draws": log})


def history(w, mode, n, part):
    """Whatever was called in between, the same key, message and drawn bytes give the same signature, and the same drawn bytes the same key."""
    L = Lib(mode)
    rng = w.rng
    L.seed(rng.getrandbits(63))
    keys = [L.keypair(False) for _ in range(3)]
    L.seed(7)
    done = {}
    seeds = {}
    base = rng.randbytes(60)
    for i in range(n):
        k = rng.randrange(10)
        if k == 0:
            # key generation from seeds that share a beginning or an end
            zk = rng.random() < .5
            s = rng.choice([base, base[:32], base[:48], base[:59] + b"x", b"x" + base[1:], base[:32] + bytes(28), base + b"\0", base[:-1]])
            w.now({"seed": s, "zk": zk})
            r = L.keypair(zk, seed=s)
            w.ev("seeded_keys")
            if seeds.setdefault((zk, s), r) != r:
                w.violation("seed-history", "a key from a seed depends on what was made before", {"seed": s, "zk": zk, "mode": mode})
            for (z, t), o in seeds.items():
                if z == zk and t != s and o[2] == r[2]:
                    w.violation("seed-shared", "two seeds give the same key", {"seed": s, "other": t, "zk": zk, "mode": mode})
            continue
        if done and k < 6:
            c = rng.choice(list(done))
        else:
            o = rng.choice(list(done)) if done and k < 9 else None
            kind = rng.choice(["nist", "zknox", "epervier"])
            script = o[3] if o and rng.random() < .6 else rng.randbytes(88)
            msg = o[2] if o and rng.random() < .5 else rng.randbytes(rng.choice([0, 1, 32, 200]))
            if o and rng.random() < .3 and msg:
                msg = msg[:-1] + bytes([msg[-1] ^ 1])
            if o and rng.random() < .3:
                j = rng.choice([0, 39, 40, 87, rng.randrange(88)])
                script = script[:j] + bytes([script[j] ^ 1]) + script[j + 1:]
            c = (kind, rng.randrange(3), msg, script)
        kind, a, msg, script = c
        L.seed(i)
        L.script(script)
        w.now({"kind": kind, "key": keys[a][2], "msg": msg, "script": script})
        r = L.sign(kind, msg, keys[a][2])
        w.ev("history_signatures")
        w.case((mode, kind, a, msg, script[:8], i))
        if r[0]:
            w.violation("sign-fails", "%s signing returns %d" % (kind, r[0]), {"sk": keys[a][2], "msg": msg, "script": script})
        elif done.setdefault(c, r[1]) != r[1]:
            w.violation("history", "%s: the same key, message and drawn bytes give another signature later on" % kind,
                        {"mode": mode, "sk": keys[a][2], "msg": msg, "script": script})
        else:
            for o, sm in done.items():
                if o[0] == kind and o != c and sm[-600:] == r[1][-600:]:
                    w.violation("history-same", "%s: another key, message or randomness gives the same signature" % kind,
                                {"mode": mode, "sk": keys[a][2], "msg": msg, "script": script, "other": {"key": o[1], "msg": o[2], "script": o[3]}})


def plan(R):
    build.prepare("shake", "eth")
    return [("fresh", dict(mode=m, nkeys=1 if R.quick else 12, n=60 if R.quick else 400, part=p)) for p in range(4) for m in ("shake", "eth")] + [
        ("history", dict(mode=m, n=250 if R.quick else 3000, part=p)) for p in range(2 if R.quick else 8) for m in ("shake", "eth")]


if __name__ == "__main__":
    pool.check("C12", "a signature or key with the log of random bytes it drew", {"fresh": fresh, "history": history}, plan,
               {"signatures": 1000, "keygen_byte_flips": 40, "sign_byte_flips": 300, "replays": 50, "history_signatures": 600, "seeded_keys": 60})
