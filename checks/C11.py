"""C11: the deterministic generators are what they claim: AES-256 CTR_DRBG, the NIST seed expander, ChaCha20."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib, frm, cbuf
from Crypto.Cipher import AES
import ctypes as C


def drbg(w, san, n, part):
    L = Lib("shake", san, katrng=True)
    c = L.c
    c.randombytes.argtypes = [C.c_void_p, C.c_ulonglong]
    rng = w.rng
    for i in range(n):
        ent = rng.randbytes(48)
        pers = rng.randbytes(48) if rng.random() < .4 else None
        case = {"entropy": ent, "pers": pers}
        w.now(case)
        c.randombytes_init(frm(ent), frm(pers) if pers else None, 256)
        m = ref.Ctr_drbg(ent, pers)
        lens = []
        for _ in range(rng.randrange(1, 8)):
            k = rng.choice([0, 1, 15, 16, 17, 32, 40, 48, rng.randrange(200), rng.randrange(3000)])
            lens.append(k)
            o = cbuf(k)
            c.randombytes(o, k)
            w.ev("drbg_outputs")
            w.case((ent, tuple(lens)))
            if bytes(o) != m.random_bytes(k):
                w.violation("drbg", "DRBG output differs after requests %s" % lens, dict(case, lens=lens))
                break
        # counter carries: drive the update function with chosen V
        key = rng.randbytes(32)
        V = (b"\xff" * 16 if rng.random() < .3 else rng.randbytes(16 - (t := rng.randrange(1, 16))) + b"\xff" * (t - 1) + bytes([rng.choice([0xfd, 0xfe, 0xff])]))
        prov = rng.randbytes(48) if rng.random() < .7 else None
        kb, vb = frm(key), frm(V)
        w.now({"update": [key, V, prov]})
        c.AES256_CTR_DRBG_Update(frm(prov) if prov else None, kb, vb)
        m = ref.Ctr_drbg(bytes(48))
        m.K, m.V = key, int.from_bytes(V, "big")
        m._update(prov)
        w.ev("drbg_updates")
        if bytes(kb) != m.K or bytes(vb) != m.V.to_bytes(16, "big"):
            w.violation("drbg-update", "DRBG update differs", {"key": key, "V": V, "data": prov})
        # the generator itself from a state whose counter is about to carry
        st = (C.c_ubyte * 48).in_dll(c, "DRBG_ctx")
        st[:] = list(key + V)
        m.K, m.V = key, int.from_bytes(V, "big")
        k = rng.choice([1, 16, 17, 48, 64, 200])
        o = cbuf(k)
        c.randombytes(o, k)
        w.ev("drbg_carry_outputs")
        if bytes(o) != m.random_bytes(k) or bytes(st) != m.K + m.V.to_bytes(16, "big"):
            w.violation("drbg-carry", "DRBG output or state differs from state K, V", {"key": key, "V": V, "len": k})
        # block function
        k, b = rng.randbytes(32), rng.randbytes(16)
        o = cbuf(16)
        c.AES256_ECB(frm(k), frm(b), o)
        w.ev("aes_blocks")
        if bytes(o) != AES.new(k, AES.MODE_ECB).encrypt(b):
            w.violation("aes", "AES-256 block differs", {"key": k, "block": b})


def expander(w, san, n, part):
    L = Lib("shake", san, katrng=True)
    c = L.c
    c.seedexpander_init.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p, C.c_ulong]
    c.seedexpander.argtypes = [C.c_void_p, C.c_void_p, C.c_ulong]
    rng = w.rng
    for i in range(n):
        seed, div = rng.randbytes(32), rng.randbytes(8)
        mx = rng.choice([100, 1000, 5000, 65536, 2 ** 32 - 1, rng.randrange(1, 20000)])
        ctx = cbuf(128)
        case = {"seed": seed, "div": div, "maxlen": mx}
        w.now(case)
        if c.seedexpander_init(ctx, frm(seed), frm(div), rng.choice([2 ** 32, 2 ** 32 + 5, 2 ** 40])) != -1:
            w.violation("expander-maxlen", "maxlen of 2^32 accepted", case)
        if c.seedexpander_init(ctx, frm(seed), frm(div), mx) != 0:
            w.violation("expander-init", "init refused", case)
        base = div + mx.to_bytes(4, "big")
        stream = AES.new(seed, AES.MODE_CTR, nonce=base, initial_value=0).encrypt(bytes(min(mx, 12000) + 64))
        left, pos = mx, 0
        if mx > 2 ** 30 and rng.random() < .5:
            # a context that has given 2^a blocks, less a few
            skip = 2 ** rng.choice([8, 16, 24]) - rng.randrange(1, 5)
            C.c_ulong.from_buffer(ctx, L.c.w_xof_left_offset()).value = mx - 16 * skip
            at = L.c.w_xof_ctr_offset()
            (C.c_ubyte * 4).from_buffer(ctx, at + 12)[:] = list(skip.to_bytes(4, "big"))
            left = mx - 16 * skip
            stream = AES.new(seed, AES.MODE_CTR, nonce=base, initial_value=skip).encrypt(bytes(12064))
            w.ev("expander_late")
        for _ in range(rng.randrange(1, 12)):
            k = rng.choice([0, 1, 15, 16, 17, 33, rng.randrange(500), left - 1, left, left + 1])
            if k > 3000 or k < 0:
                k = rng.randrange(100)
            o = cbuf(max(k, 1))
            r = c.seedexpander(ctx, o, k)
            w.ev("expander_calls")
            w.case((seed, pos, k))
            if k >= left:
                if r != -3:
                    w.violation("expander-limit", "request of %d with %d left returns %d" % (k, left, r), case)
                continue
            if r != 0 or bytes(o)[:k] != stream[pos:pos + k]:
                w.violation("expander", "seed expander output differs at %d+%d (ret %d)" % (pos, k, r), case)
                break
            pos += k
            left -= k
        if c.seedexpander(ctx, None, 1) != -2:
            w.violation("expander-null", "NULL output accepted", case)


def chacha(w, san, n, part):
    L = Lib("shake", san)
    rng = w.rng
    for i in range(n):
        seed = rng.randbytes(rng.choice([0, 1, 48, 56]))
        w.now({"seed": seed})
        p = L.prng(seed)
        m = ref.FalconPrng(ref.shake256(seed, 56))
        ops = []
        if rng.random() < .5:
            cc = rng.choice([2 ** 32, 2 ** 64, 2 ** 8, 2 ** 16, 2 ** 33, rng.randrange(1, 2 ** 32) << 32]) - rng.randrange(0, 9)
            L.c.w_prng_set_cc(p, C.c_uint64(cc))
            m.cc = cc % 2 ** 64
            m.refill()
            ops.append(("cc", cc))
            w.ev("chacha_carries")
        for _ in range(rng.randrange(1, 60)):
            k = rng.randrange(3)
            if k == 0:
                g, e = L.c.w_prng_u64(p), m.u64()
            elif k == 1:
                g, e = L.c.w_prng_u8(p), m.u8()
            else:
                nb = rng.choice([0, 1, 7, 9, 503, 504, 511, 512, 513, rng.randrange(1300)])
                o = cbuf(nb)
                L.Z("prng_get_bytes")(p, o, nb)
                g, e = bytes(o), m.get_bytes(nb)
                k = (2, nb)
            ops.append(k)
            w.ev("prng_reads")
            if g != e:
                w.violation("prng", "ChaCha20 PRNG differs after %s" % ops[-20:], {"seed": seed, "ops": ops})
                break
        w.case((seed, len(ops)))
        if i < 2:
            w.sample({"seed": seed, "ops": ops[:12]})


def plan(R):
    for s in ("", "asan"):
        build.lib("shake", s, katrng=True)
    build.prepare("shake", "shake/asan")
    q = R.quick
    t = []
    for job, n in (("drbg", 600), ("expander", 800), ("chacha", 150)):
        for p in range(2):
            t.append((job, dict(san="", n=n if q else n * 40, part=p)))
        t.append((job, dict(san="asan", n=n // 3 if q else n * 6, part=9), "asan"))
    return t


if __name__ == "__main__":
    pool.check("C11", "a generator run by (generator, seed, request sequence)", {"drbg": drbg, "expander": expander, "chacha": chacha}, plan,
               {"drbg_outputs": 2000, "drbg_updates": 1000, "expander_calls": 3000, "prng_reads": 4000})
