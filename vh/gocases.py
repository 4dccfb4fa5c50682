"""Workloads shared by the checks of the Go binding and of the precompile."""
from . import ref, build
from .cfalcon import Lib

SIZES = [0, 1, 31, 32, 639, 640, 641, 983, 1024, 1025, 1329, 1330, 1331, 2000, 4096, 5000, 20000]


class Maker:
    """Genuine keys and signatures from the C reference (which has its own checks)."""

    def __init__(self, rng):
        self.L = Lib("shake")
        self.rng = rng
        self.L.seed(rng.getrandbits(62))
        self.keys = [self.L.keypair(False, rng.randbytes(32))[1:] for _ in range(2)]

    def msg(self, big=True):
        rng = self.rng
        n = rng.choice(SIZES) if rng.random() < .4 else rng.randrange(300)
        if big and rng.random() < .03:      # lengths that do not fit in 16 bits
            n = rng.choice([65535, 65536, 65537, 70000, 131072 + rng.randrange(700), 300000])
        return rng.randbytes(n if big else min(n, 2000))

    def sign(self, m, k=0):
        r, sm = self.L.sign("nist", m, self.keys[k][1])
        assert r == 0
        return sm


def near(rng, x):
    """x, or x with one late or early change."""
    if not x or rng.random() < .4:
        return x
    b = bytearray(x)
    b[rng.choice([0, len(b) - 1, len(b) - 2, len(b) // 2, rng.randrange(len(b))]) % len(b)] ^= 1 << rng.randrange(8)
    return bytes(b)


def triples(mk, n):
    """(what, sig, msg, pk) honest and hostile; in between, earlier ones again, as they were or with the parts of one another."""
    rng = mk.rng
    seen = []
    for t in fresh(mk, n):
        yield t
        if len(t[1]) < 4000 and (t[0] != "random" or rng.random() < .2):
            seen = seen[-20:] + [t]
        if not seen:
            continue
        k = rng.randrange(7)
        if k == 0:
            # straight after: the same with a little difference
            yield "next", near(rng, t[1]), near(rng, t[2]), near(rng, t[3])
        elif k == 1:
            yield ("again",) + rng.choice(seen)[1:]
        elif k == 2:
            a, b = rng.choice(seen), rng.choice([t, rng.choice(seen)])
            yield "mixed", rng.choice([a, b])[1], rng.choice([a, b])[2], rng.choice([a, b])[3]


def fresh(mk, n):
    rng = mk.rng
    for i in range(n):
        m = mk.msg()
        pk, sk = mk.keys[0]
        sm = mk.sign(m)
        k = rng.randrange(17)
        if k <= 3:
            yield "good", sm, m, pk
        elif k == 4:
            yield "othermsg", sm, rng.choice([m + b"\0", m[:-1], b"", rng.randbytes(len(m)), m[:len(m) // 2]]), pk
        elif k == 5:
            yield "otherkey", sm, m, mk.keys[1][0]
        elif k == 6:
            b = bytearray(sm)
            p = rng.choice([0, 1, 2, 41, len(b) - 1, 42 + len(m), rng.randrange(len(b))])
            b[p % len(b)] ^= 1 << rng.randrange(8)
            yield "flip", bytes(b), m, pk
        elif k == 7:
            yield "cut", sm[:rng.choice([0, 1, 2, 41, 42, 43, len(sm) - 1, rng.randrange(len(sm))])], m, pk
        elif k == 8:
            yield "extended", sm + rng.randbytes(rng.choice([1, 2, 100])), m, pk
        elif k == 9:
            yield "pklen", sm, m, rng.choice([b"", pk[:1], pk[:-1], pk + b"\0", pk[:100], pk * 2, b"\x09"])
        elif k == 10:
            p = bytearray(pk)
            p[rng.choice([0, 0, rng.randrange(len(p))])] ^= 1 << rng.randrange(8)
            yield "pkflip", sm, m, bytes(p)
        elif k == 11:
            yield "pkrange", sm, m, b"\x09" + b"\xff" * 896
        elif k == 12:
            yield "random", rng.randbytes(rng.choice([0, 1, 41, 42, 43, 100, 700, 3000])), rng.randbytes(rng.randrange(50)), rng.choice([pk, rng.randbytes(897)])
        elif k == 13:
            # a header-only signature, with the length field at its corners
            sl = rng.choice([0, 1, 2, 65535, 625, len(m) & 65535])
            yield "header", sl.to_bytes(2, "big") + sm[2:42] + m + rng.choice([b"", b"\x29", b"\x29\0", b"\x29" * 626]), m, pk
        elif k == 14:
            # forged around a chosen norm
            nonce = rng.randbytes(40)
            hm = ref.hash_to_point(nonce + m, "shake")
            d = rng.choice([0, 1, -1, 500, -500])
            s1, s2, h = ref.forge(rng, hm, target=ref.BOUND + d)
            c = ref.comp_encode(s2)
            if c is None:
                continue
            e = b"\x29" + c
            yield "norm", len(e).to_bytes(2, "big") + nonce + m + e, m, ref.pk_encode(h, False)
        elif k == 15:
            # trailing bytes inside the signature
            sl = (sm[0] << 8) | sm[1]
            x = rng.choice([b"\0", b"\0\0\0", b"\x80", b"\x29"])
            yield "padded", (sl + len(x)).to_bytes(2, "big") + sm[2:] + x, m, pk
        else:
            # the message is empty and the signature's message is not, and the reverse
            yield "empties", sm, b"", pk


def verdict(sig, msg, pk):
    if len(pk) != 897:
        return False
    r, m = ref.open_verdict(sig, pk, "shake", False)
    return r == "ok" and m == msg
