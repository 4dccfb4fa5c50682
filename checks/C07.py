"""C07: no memory error, no undefined behaviour, no use of uninitialized memory, on any input to the C interface."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib, frm, cbuf
from vh.ref import N, Q
import ctypes as C


def opens(w, mode, n, part):
    """ASan+UBSan: arbitrary, structured and truncated inputs in exactly sized heap blocks."""
    L = Lib(mode, "asan")
    rng = w.rng
    L.seed(rng.getrandbits(63))
    _, pk, sk = L.keypair(False)
    _, zpk, zsk = L.keypair(True)
    pool_sm = {}
    for k in ("nist", "zknox", "epervier"):
        pool_sm[k] = [L.sign(k, rng.randbytes(m), sk if k == "nist" else zsk)[1] for m in (0, 1, 50, 700)]
    for i in range(n):
        kind = rng.choice(["nist", "zknox", "epervier"])
        p = pk if kind == "nist" else zpk
        x = rng.random()
        base = rng.choice(pool_sm[kind])
        sl = (base[0] << 8) | base[1]
        if x < .15:
            sm = rng.randbytes(rng.randrange(0, 2300))
        elif x < .3:
            # right shape, random payload
            e = bytes([0x29]) + rng.randbytes(rng.choice([0, 1, 2, 10, 600, 624, 1023, 1024, 1025, 2050, 2051, 2052]))
            if rng.random() < .5 and len(e) > 1025:
                e = e[:1025] + b"\x29" + e[1026:]
            sm = len(e).to_bytes(2, "big") + rng.randbytes(40) + rng.randbytes(rng.randrange(60)) + e
        elif x < .45:
            # low-weight payload: many zero bits (long unary runs), many ones
            e = bytes([0x29]) + bytes(rng.choice([0, 0, 0, 255, 128, 1, 0x0f]) for _ in range(rng.choice([625, 647, 1024, 2051])))
            sm = len(e).to_bytes(2, "big") + rng.randbytes(40) + e
        elif x < .75:
            b = bytearray(base)
            for _ in range(rng.randrange(1, 5)):
                b[rng.randrange(len(b))] = rng.choice([0, 255, 128, rng.randrange(256)])
            sm = bytes(b)
        elif x < .9:
            k = rng.choice([0, 1, 2, 3, 41, 42, 43, 44, len(base) - 1, len(base) - sl, len(base) - sl + 1, rng.randrange(len(base))])
            b = bytearray(base[:k])
            if len(b) >= 2 and rng.random() < .5:
                v = max(0, sl - (len(base) - k)) if rng.random() < .6 else rng.randrange(65536)
                b[0:2] = v.to_bytes(2, "big")
            sm = bytes(b)
        else:
            # only a stub of the signature remains, announced as such
            keep = rng.choice([0, 1, 2, 3, 1024, 1025, 1026, 1027, 2049, 2050, 2051, sl - 1])
            keep = min(keep, sl)
            sm = keep.to_bytes(2, "big") + base[2:len(base) - sl + keep]
        if rng.random() < .1:
            b = bytearray(p)
            b[rng.randrange(len(b))] = rng.choice([0, 255, rng.randrange(256)])
            p = bytes(b)
        inplace = rng.random() < .3
        w.now({"mode": mode, "open": kind, "sm": sm, "pk": p, "inplace": inplace})
        r, m, clean = L.open(kind, sm, p, inplace=inplace)
        w.ev("opens")
        w.ev("opened" if r == 0 else "refused")
        w.case((mode, kind, sm[:12], len(sm), r))
    w.sample({"mode": mode, "opens": n})


def keys(w, mode, n, part):
    """ASan+UBSan: key generation, signing and key conversion, including with damaged private keys."""
    L = Lib(mode, "asan")
    rng = w.rng
    for i in range(n):
        s = rng.getrandbits(63)
        w.now({"mode": mode, "keypair": s})
        L.seed(s)
        zk = rng.random() < .5
        seed = rng.randbytes(rng.choice([0, 1, 31, 32, 48, 500])) if rng.random() < .5 else None
        r, pk, sk = L.keypair(zk, seed)
        w.ev("keypairs")
        w.case((mode, "key", s))
        if r:
            if seed is None or len(seed) >= 32:
                w.violation("keypair", "keypair failed", {"rb": s, "seed": seed})
            continue
        for _ in range(4):
            kind = rng.choice(["nist", "zknox", "epervier"])
            b = bytearray(sk)
            k = rng.randrange(4)
            if k == 1:
                b[0] = rng.choice([0, 0x58, 0x5A, 255])
            elif k == 2:
                # the forbidden most negative value, in f, g or F
                f, g, F = ref.sk_decode(sk)
                which = rng.randrange(3)
                (f, g, F)[which][rng.randrange(N)] = -32 if which < 2 else -128
                b = bytearray(b"\x59" + ref.pack(f, 6) + ref.pack(g, 6) + ref.pack(F, 8))
            elif k == 3:
                # f not invertible, or F that completes to no short G
                f, g, F = ref.sk_decode(sk)
                if rng.random() < .5:
                    f = [0] * N
                else:
                    F[rng.randrange(N)] ^= 5
                    F = [max(-127, min(127, v)) for v in F]
                b = bytearray(ref.sk_encode(f, g, F))
            msg = rng.randbytes(rng.choice([0, 1, 97, 5000]))
            ss = rng.getrandbits(63)
            w.now({"mode": mode, "sign": kind, "sk": bytes(b), "msg": msg, "ss": ss, "damage": k})
            L.seed(ss)
            r, sm = L.sign(kind, msg, bytes(b))
            w.ev("signs")
            if k in (1, 2) and r == 0:
                w.violation("bad-sk", "signing accepts an invalid private key (%d)" % k, {"sk": bytes(b), "kind": kind})
            if k:
                w.ev("damaged_keys")
        for _ in range(3):
            b = bytearray(pk if zk else rng.randbytes(1025))
            if rng.random() < .5:
                b[rng.randrange(1025)] = 255
            w.now({"pk_epervier": bytes(b)})
            kb = frm(bytes(b))
            L.c.zknox_pk_epervier(kb)
            w.ev("conversions")


def msan(w, mode, exe, seed, rounds):
    env = pool.san_env("msan")
    w.now({"exe": exe, "seed": seed, "rounds": rounds}, cpu=600)
    p = subprocess.run([exe, str(seed), str(rounds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    if p.returncode == 99 or "WARNING: MemorySanitizer" in err:
        w.violation("uninitialized", pool.summarize(err)[:1500], {"drive": "csrc/drive.c", "mode": mode, "seed": seed, "rounds": rounds})
    elif p.returncode:
        w.violation("crash", "driver ended with %d: %s %s" % (p.returncode, out[-300:], err[-800:]), {"mode": mode, "seed": seed, "rounds": rounds})
    m = re.search(r"EVENTS keys=(\d+) signs=(\d+) opens=(\d+) opened=(\d+) inner=(\d+)", out)
    if m:
        for k, v in zip(("msan_keys", "msan_signs", "msan_opens", "msan_opened", "msan_inner"), m.groups()):
            w.ev(k, int(v))
        w.case((mode, seed, rounds))
        w.evaluations += int(m.group(3))


def plan(R):
    build.prepare("shake/asan", "eth/asan")
    q = R.quick
    t = []
    for mode in ("shake", "eth"):
        exe = build.exe("drive-" + mode, ["drive.c"], mode=mode, san="msan", cc="clang")
        for p in range(2 if q else 4):
            t.append(("opens", dict(mode=mode, n=4000 if q else 100000, part=p), "asan"))
        t.append(("keys", dict(mode=mode, n=12 if q else 300, part=0), "asan"))
        for p in range(2 if q else 6):
            t.append(("msan", dict(mode=mode, exe=exe, seed=R.seed * 100 + p, rounds=6 if q else 100), ""))
    return t


if __name__ == "__main__":
    pool.check("C07", "a call into the C interface under AddressSanitizer+UBSan or MemorySanitizer, by (operation, input)",
               {"opens": opens, "keys": keys, "msan": msan}, plan,
               {"opens": 10000, "refused": 5000, "opened": 20, "keypairs": 15, "damaged_keys": 20, "msan_signs": 200, "msan_opens": 3000, "msan_inner": 200})
