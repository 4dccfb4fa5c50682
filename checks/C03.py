"""C03: the 16-bit word format (what the contracts read) and the compressed format carry the same keys and signatures."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib
from vh.ref import N, Q


def same(w, mode, nkeys, nsig, part):
    L = Lib(mode)
    rng = w.rng
    for _ in range(nkeys):
        seed = rng.randbytes(rng.choice([32, 33, 48, 64, 200]))
        fromseed = rng.random() < .5
        ks = rng.getrandbits(63)
        case = {"mode": mode, "seed": seed.hex() if fromseed else None, "rb": ks}
        w.now(case)
        L.seed(ks)
        r1, pk, sk = L.keypair(False, seed if fromseed else None)
        L.seed(ks)
        r2, zpk, zsk = L.keypair(True, seed if fromseed else None)
        w.ev("keypairs")
        if r1 or r2 or sk != zsk:
            w.violation("keypair", "same seed, different private keys (ret %d %d)" % (r1, r2), case)
            continue
        h, zh = ref.pk_decode(pk, False), ref.pk_decode(zpk, True)
        if h is None or h != zh:
            w.violation("pk-words", "16-bit public key is not the transform of the compact public key", case)
            continue
        if zpk[1:] != ref.pack(ref.ntt(h), 16):
            w.violation("pk-order", "16-bit public key words are not NTT(h) in documented order", case)
        for _ in range(nsig):
            msg = rng.randbytes(rng.choice([0, 1, 32, 97, rng.randrange(2000)]))
            ss = rng.getrandbits(63)
            case2 = dict(case, ss=ss, msg=msg.hex())
            w.now(case2)
            L.seed(ss)
            r1, sm = L.sign("nist", msg, sk)
            L.seed(ss)
            r2, zsm = L.sign("zknox", msg, sk)
            w.ev("signature_pairs")
            if r1 or r2:
                w.violation("sign", "sign returned %d/%d" % (r1, r2), case2)
                continue
            if len(zsm) != 42 + len(msg) + 1025 or zsm[2:42] != sm[2:42]:
                w.violation("layout", "16-bit signed message has length %d or another nonce" % len(zsm), case2)
                continue
            e = zsm[42 + len(msg):]
            s2 = ref.comp_decode(sm[42 + len(msg) + 1:])
            z2 = ref.sig16_decode(e[1:])
            w.case((mode, zsm[2:20]))
            if s2 is None or z2 is None or s2[0] != z2 or e[0] != 0x29:
                w.violation("sig-words", "same randomness, the two formats carry different vectors", case2)
                continue
            # re-encode by hand into the other format: both verifiers take the translation
            t = b"\x29" + ref.comp_encode(z2)
            r, m, _ = L.open("nist", len(t).to_bytes(2, "big") + sm[2:42] + msg + t, pk)
            t = b"\x29" + ref.pack([v % Q for v in s2[0]], 16)
            rz, mz, _ = L.open("zknox", len(t).to_bytes(2, "big") + sm[2:42] + msg + t, zpk)
            w.ev("translations")
            if r or rz or m != msg or mz != msg:
                w.violation("translate", "signature translated between formats is refused (%d/%d)" % (r, rz), case2)
            # no second spelling of the same vector opens
            for _ in range(6):
                j = rng.randrange(N)
                b = bytearray(zsm)
                o = 42 + len(msg) + 1 + 2 * j
                v = (b[o] << 8) | b[o + 1]
                cand = [v + Q, v + 2 * Q, v + 3 * Q, v + 4 * Q, z2[j] & 0xFFFF, (z2[j] - Q) & 0xFFFF]
                v2 = rng.choice([c for c in cand if 0 <= c < 65536 and c != v])
                b[o:o + 2] = v2.to_bytes(2, "big")
                w.ev("respellings")
                r, m, _ = L.open("zknox", bytes(b), zpk)
                if r == 0:
                    w.violation("respelling", "coefficient %d (%d) also accepted as word %d" % (j, z2[j], v2), dict(case2, j=j, word=v2))
            w.sample(case2)


def plan(R):
    build.prepare("shake", "eth")
    return [("same", dict(mode=m, nkeys=10 if R.quick else 120, nsig=12 if R.quick else 40, part=p))
            for p in range(3 if R.quick else 4) for m in ("shake", "eth")]


if __name__ == "__main__":
    pool.check("C03", "a pair of signatures (two formats, same key and randomness) compared field by field",
               {"same": same}, plan, {"keypairs": 40, "signature_pairs": 400, "translations": 400, "respellings": 2000})
