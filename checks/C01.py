"""C01: what the C reference signs, it opens, to the same bytes, within the documented sizes."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib

LENS = [0, 1, 2, 31, 32, 33, 94, 95, 96, 97, 98, 135, 136, 137, 231, 232, 233, 255, 256, 257, 511, 512, 1023, 1024,
        1025, 2048, 4054, 4055, 4056]
LONG = [4057, 4096, 4097, 8191, 65535, 65536, 65537, 100003]


def trip(w, mode, san, kinds, nkeys, nmsg, part):
    L = Lib(mode, san)
    for k in range(nkeys):
        s = w.rng.getrandbits(63)
        zk = w.rng.random() < .5
        w.now(["keypair", mode, s, zk])
        L.seed(s)
        r, pk, sk = L.keypair(False)
        L.seed(s)
        rz, zpk, zsk = L.keypair(True)
        if r or rz:
            w.violation("keypair", "keypair returned %d/%d" % (r, rz), [mode, s])
            continue
        r2, wpk, wsk = L.keypair(False)
        r2, wzpk, wsk = L.keypair(True)
        for i in range(nmsg):
            kind = kinds[i % len(kinds)]
            usepk, otherpk = (pk, wpk) if kind == "nist" else (zpk, wzpk)
            x = w.rng.random()
            n = w.rng.choice(LENS) if x < .6 else w.rng.randrange(0, 4057)
            if x > .93 and (mode != "eth" or kind == "epervier"):
                n = w.rng.choice(LONG)
            msg = w.rng.randbytes(n) if w.rng.random() < .8 else bytes([w.rng.choice([0, 0xff, 0x29])]) * n
            ms = w.rng.getrandbits(63)
            case = {"mode": mode, "kind": kind, "keyseed": s, "signseed": ms, "mlen": n, "msg": msg[:64].hex()}
            w.now(case)
            L.seed(ms)
            r, sm = L.sign(kind, msg, sk)
            if r or sm is None:
                w.violation("sign-fails", "sign returned %d" % r, case)
                continue
            w.ev("signatures")
            w.case((mode, kind, n, sm[2:10]))
            if len(sm) > n + L.OVER[kind] or sm[42:42 + n] != msg or ((sm[0] << 8) | sm[1]) != len(sm) - 42 - n:
                w.violation("layout", "signed message is not len||nonce||msg||sig within the documented size", case)
                continue
            r, m, clean = L.open(kind, sm, usepk)
            w.ev("opens")
            if r or m != msg:
                w.violation("open-own", "own signature does not open to its message (ret %d)" % r, case)
            elif not clean:
                w.violation("overwrite", "open wrote beyond the recovered message", case)
            r, m, _ = L.open(kind, sm, usepk, inplace=True)
            if r or m != msg:
                w.violation("open-inplace", "in-place open differs (ret %d)" % r, case)
            if i % 3 == 0:
                L.seed(ms)
                r, sm2 = L.sign(kind, msg, sk, inplace=True)
                w.ev("inplace_signs")
                if r or sm2 != sm:
                    w.violation("sign-inplace", "in-place sign differs from plain sign with the same randomness", case)
            # the independent reader agrees
            if kind == "epervier":
                p = ref.epervier_parts(sm)
                ok = p is not None and [int(v) for v in ref.epervier_recover(ref.hash_to_point(p[0] + p[1]), p[2], p[3])
                                        ] == ref.modq_decode(zpk[1:], 512, 16) and p[4] == ref.hint_of(p[3])
            else:
                ok = ref.open_verdict(sm, usepk, mode, kind == "zknox") == ("ok", msg)
            w.ev("oracle_agreements")
            if not ok:
                w.violation("oracle", "the reference reader refuses the signature", case)
            r, m, clean = L.open(kind, sm, otherpk)
            w.ev("wrong_key_rejections")
            if r == 0:
                w.violation("wrong-key", "opens under another key", case)
            if n:
                b = bytearray(sm)
                j = 42 + w.rng.randrange(n)
                b[j] ^= 1 << w.rng.randrange(8)
                r, m, clean = L.open(kind, bytes(b), usepk)
                w.ev("changed_message_rejections")
                if r == 0:
                    w.violation("changed-msg", "opens with a changed message byte %d" % (j - 42), case)
            if i < 1:
                w.sample(case)


def plan(R):
    t = []
    nk, nm = (6, 40) if R.quick else (60, 150)
    for p in range(3 if R.quick else 6):
        for mode in ("shake", "eth"):
            t.append(("trip", dict(mode=mode, san="", kinds=["nist", "zknox", "epervier"], nkeys=nk, nmsg=nm, part=p), ""))
    for mode in ("shake", "eth"):
        t.append(("trip", dict(mode=mode, san="asan", kinds=["nist", "zknox", "epervier"], nkeys=3 if R.quick else 30,
                               nmsg=24, part=100), "asan"))
    build.prepare("shake", "eth", "shake/asan", "eth/asan")
    return t


if __name__ == "__main__":
    pool.check("C01", "a signature made by the real code under a fresh key (mode, format, message length, nonce)",
               {"trip": trip}, plan,
               {"signatures": 300, "opens": 300, "oracle_agreements": 300, "wrong_key_rejections": 300, "inplace_signs": 50})
