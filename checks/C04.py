"""C04: a signature is bound to every byte of nonce and message, at every length; nothing else opens with it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool, ref
from vh.cfalcon import Lib

LENS = [1, 2, 95, 96, 97, 136, 137, 1000, 2047, 2048, 4000, 4055, 4056]
LONG = [4057, 4058, 4095, 4096, 4097, 5000, 8192, 16384, 33000, 65495, 65496, 65497, 70000, 131072]


def bind(w, mode, n, part):
    L = Lib(mode)
    rng = w.rng
    L.seed(rng.getrandbits(63))
    _, pk, sk = L.keypair(False)
    L.seed(rng.getrandbits(63))
    _, zpk, zsk = L.keypair(True)
    for i in range(n):
        kind = ("nist", "zknox", "epervier")[i % 3]
        p, s = (pk, sk) if kind == "nist" else (zpk, zsk)
        ln = rng.choice(LENS if rng.random() < .5 else LONG)
        if rng.random() < .3:
            ln = rng.randrange(1, 70000)
        msg = rng.randbytes(ln)
        ss = rng.getrandbits(63)
        case = {"mode": mode, "kind": kind, "mlen": ln, "ss": ss}
        w.now(case)
        L.seed(ss)
        r, sm = L.sign(kind, msg, s)
        if r:
            # refusing is allowed only where the hash has a limit; then opening anything that long must fail too
            if not (mode == "eth" and kind != "epervier" and ln + 40 > 4096):
                w.violation("refused", "sign refuses a %d byte message" % ln, case)
            w.ev("refused_long")
            # the same signature on any long message must not open either
            r0, short = L.sign(kind, b"", s)
            e = short[42:]
            for _ in range(3):
                m2 = rng.randbytes(ln)
                r2, _, _ = L.open(kind, short[:42] + m2 + e, p)
                if r2 == 0:
                    w.violation("unbound-long", "signature of the empty message opens with a %d byte one" % ln, case)
            w.case((mode, kind, ln, "refused"))
            continue
        w.ev("signed")
        w.case((mode, kind, ln, sm[2:10]))
        e = sm[42 + ln:]
        r, m, _ = L.open(kind, sm, p)
        if r or m != msg:
            w.violation("own", "own signed message does not open (mlen %d)" % ln, case)
        spots = {0, ln - 1, ln // 2, min(ln - 1, 4056), min(ln - 1, 95), min(ln - 1, 96), min(ln - 1, 4055)} | \
                {rng.randrange(ln) for _ in range(6)}
        for j in spots:
            b = bytearray(sm)
            b[42 + j] ^= 1 << rng.randrange(8)
            w.ev("message_changes")
            r, m, _ = L.open(kind, bytes(b), p)
            if r == 0:
                w.violation("msg-byte", "byte %d of %d is not bound" % (j, ln), dict(case, pos=j))
        for j in [0, 39] + [rng.randrange(40) for _ in range(3)]:
            b = bytearray(sm)
            b[2 + j] ^= 1 << rng.randrange(8)
            w.ev("nonce_changes")
            if L.open(kind, bytes(b), p)[0] == 0:
                w.violation("nonce-byte", "nonce byte %d is not bound" % j, dict(case, pos=j))
        # transplant to other messages: shorter, longer, swapped halves, zero-extended, a message moved into the nonce
        for m2 in (msg[:-1], msg + b"\0", b"\0" + msg, msg + msg, b"", msg[ln // 2:] + msg[:ln // 2], rng.randbytes(ln)):
            if m2 == msg:
                continue
            w.ev("transplants")
            if L.open(kind, sm[:42] + m2 + e, p)[0] == 0:
                w.violation("transplant", "signature of a %d byte message opens with another of %d" % (ln, len(m2)), case)
        if i < 2:
            w.sample(case)


def plan(R):
    build.prepare("shake", "eth")
    return [("bind", dict(mode=m, n=60 if R.quick else 1500, part=p)) for p in range(4) for m in ("shake", "eth")]


if __name__ == "__main__":
    pool.check("C04", "a signed message (mode, format, length) whose bytes are then changed or transplanted",
               {"bind": bind}, plan, {"signed": 200, "refused_long": 20, "message_changes": 2000, "nonce_changes": 1000, "transplants": 1000})
