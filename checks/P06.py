"""P06: the Python hash functions and generators are the documented functions of their whole input."""
import hashlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import mon, pool, pyref, pyspec, ref
from vh.ref import Q
from Crypto.Hash import SHAKE128, SHA3_256, keccak as ck

sys.path.insert(0, os.path.join(mon.REPO, "pythonref", "blake2s"))
SIZES = [0, 1, 2, 7, 8, 31, 32, 33, 40, 63, 64, 65, 135, 136, 137, 168, 271, 272, 273]


def size(r):
    return r.choice(SIZES) if r.random() < .6 else r.randrange(500)


class One:
    """An instance under test, what went into it and how much came out."""

    def __init__(self, w, name):
        self.w, self.name, self.X = w, name, pyref.xof(name)
        self.x, self.data, self.done, self.read, self.log = self.X.new(), b"", False, 0, []
        self.cap = pyspec.LIMIT.get(name)
        self.model = b""

    def bad(self, key, what):
        self.w.violation(key + "-" + self.name, "%s: %s" % (self.name, what), {"xof": self.name, "input": self.data, "calls": self.log[-60:]})

    def refuse(self, what, f, *a):
        v, e = pyref.call(f, *a)
        self.log.append(what)
        self.w.ev("misuse")
        if not isinstance(e, ValueError):
            self.bad("misuse", "%s is not refused: %r %r" % (what, v, e))

    def step(self):
        r = self.w.rng
        n = size(r)
        if not self.done:
            if r.random() < .75:
                d = r.randbytes(n if self.cap is None or r.random() < .9 else r.choice([self.cap, self.cap - len(self.data), self.cap - len(self.data) + 1]))
                if r.random() < .3:
                    d = bytearray(d)
                self.log.append("update %d" % len(d))
                if self.cap is not None and len(self.data) + len(d) > self.cap:
                    return self.refuse("input over the limit (%d+%d)" % (len(self.data), len(d)), self.x.update, d)
                v, e = pyref.call(self.x.update, d)
                if e is not None:
                    self.bad("update", "update(%d bytes) raises %r" % (len(d), e))
                self.data += bytes(d)
                if isinstance(d, bytearray) and d and self.name != "KeccaXOF":
                    d[0] ^= 255  # the caller's buffer is the caller's
                return
            if self.cap is not None and r.random() < .3:
                return self.refuse("read before flip", self.x.read, 5)
            self.log.append("flip")
            self.x.flip()
            self.done = True
            self.model = pyspec.stream(self.name, self.data, 600)
            return
        if self.name != "SHAKE" and r.random() < .1 and (self.cap is not None or self.read):
            self.refuse("update after output", self.x.update, b"x")
            if self.cap is not None:
                self.refuse("flip twice", self.x.flip)
            return
        if r.random() < .4:
            n = r.randrange(5)
        self.log.append("read %d" % n)
        if self.read + n > len(self.model):
            self.model = pyspec.stream(self.name, self.data, 2 * (self.read + n))
        want = self.model[self.read:self.read + n]
        v, e = pyref.call(self.x.read, n)
        self.read += n
        self.w.ev("read-" + self.name)
        if e is not None or bytes(v) != want:
            self.bad("stream", "%d bytes at %d are %s %r, should be %s" % (n, self.read - n, v.hex() if v is not None else v, e, want.hex()))


def streams(w, name, count, steps):
    """Several instances at a time, so that shared state shows."""
    for i in range(count):
        os_ = [One(w, name) for _ in range(3)]
        w.now({"xof": name})
        for _ in range(steps):
            w.rng.choice(os_).step()
        for o in os_:
            if o.done:
                w.case((name, o.data, o.read))
    w.sample({"xof": name, "input bytes": len(os_[0].data), "read": os_[0].read, "calls": os_[0].log[:12]})


def far(w, name, blocks):
    """One long stream: the block counter passes 2^8 and 2^16."""
    r = w.rng
    X = pyref.xof(name).new()
    d = r.randbytes(size(r))
    X.update(d)
    X.flip()
    want = pyspec.stream(name, d, 32 * blocks)
    p = 0
    while p < len(want):
        n = r.choice([1, 31, 32, 33, 1000, 8192, r.randrange(1, 60000)])
        n = min(n, len(want) - p)
        w.now({"xof": name, "input": d, "at": p, "n": n})
        got = bytes(X.read(n))
        w.ev("far-reads")
        w.ev("far-blocks", n // 32)
        if got != want[p:p + n]:
            k = next((i for i in range(min(n, len(got))) if got[i] != want[p + i]), len(got))
            w.violation("far-" + name, "%s: the stream is wrong from byte %d" % (name, p + k), {"xof": name, "input": d, "at": p, "n": n})
            break
        p += n
    w.case(("far", name, d))


def sponge(w, count):
    """KeccakHash with other rates and suffixes: SHA3-256, Keccak-256, SHAKE128, SHAKE256, and one-shot construction."""
    from keccak import KeccakHash
    from shake import SHAKE
    r = w.rng
    for i in range(count):
        d = r.randbytes(size(r))
        k = i % 6
        n = r.choice([1, 31, 32])
        if k == 0:
            K, want = KeccakHash(rate=136, dsbyte=6), SHA3_256.new(d).digest()
        elif k == 1:
            K, want = KeccakHash(rate=136, dsbyte=1), ck.new(digest_bits=256, data=d).digest()
        elif k == 2:
            n = size(r)
            K, want = KeccakHash(rate=168, dsbyte=0x1f), SHAKE128.new(d).read(n)
        elif k == 3:
            K, n = KeccakHash(rate=72, dsbyte=1), 64
            want = ck.new(digest_bits=512, data=d).digest()
        elif k == 4:
            K, n = KeccakHash(d, rate=104, dsbyte=6), 48
            want, d = hashlib.sha3_384(d).digest(), b""
        else:
            n = size(r)
            K, want = SHAKE.new(d), hashlib.shake_256(d).digest(n)
            K.flip()
            got = K.read(n)
            w.ev("sponge")
            w.case((k, d, n))
            if got != want:
                w.violation("shake-new", "SHAKE.new(data) gives another stream than SHAKE256(data)", {"data": d, "n": n})
            continue
        w.now({"k": k, "d": d})
        p = 0
        while p < len(d):
            q = p + r.choice([1, 8, 136, 72, r.randrange(1, 300)])
            r.choice([K.absorb, K.update])(d[p:q])
            p = q
        K.pad()
        got = b""
        while len(got) < n:
            got += K.squeeze(min(n - len(got), r.choice([1, 32, 136, r.randrange(1, 200)])))
        w.ev("sponge")
        w.case((k, d, n))
        if got != want[:n]:
            w.violation("sponge", "variant %d of KeccakHash differs on %d bytes" % (k, len(d)), {"variant": k, "data": d, "n": n})


def points(w, name, count):
    """hash_to_point for every degree."""
    import falcon
    r = w.rng
    X = pyref.xof(name)
    for i in range(count):
        n = r.choice(pyspec.DEGREES if name != "SHAKE" else [2, 16, 64, 512])
        salt, msg = r.randbytes(r.choice([40, 40, 40, 0, 32, 64])), r.randbytes(size(r) if r.random() < .8 else r.choice([984, 992, 993, 4056, 4057, 3000]))
        case = {"xof": name, "n": n, "salt": salt, "msg": msg}
        w.now(case)
        want = pyspec.h2p(name, salt, msg, n)
        v, e = pyref.call(falcon.hash_to_point, n, r.choice([bytes, bytearray])(msg), salt, X)
        w.ev("points")
        w.case((name, n, salt, msg))
        if want is None:
            w.ev("points-over-limit")
            if not isinstance(e, ValueError):
                w.violation("limit", "a message longer than the hash buffer is not refused: %r" % e, case)
        elif e is not None or [int(x) for x in v] != want:
            w.violation("point", "hash_to_point (%s, n=%d) is not the documented point: %r" % (name, n, e), case)


def blake(w, count):
    import blake2s as b2
    r = w.rng
    for i in range(count):
        d = r.randbytes(r.choice([0, 1, 63, 64, 65, 127, 128, 129, 192, r.randrange(400)]))
        h = list(b2.IV)
        h[0] ^= 0x01010020
        h0 = list(h)
        p = 0
        while True:
            blk = d[p:p + 64].ljust(64, b"\0")
            last = p + 64 >= len(d)
            m = [int.from_bytes(blk[4 * j:4 * j + 4], "little") for j in range(16)]
            h = b2.blake2s_compress(h, list(m), min(p + 64, len(d)), 0, 0xFFFFFFFF if last else 0, 0)
            p += 64
            if last:
                break
        got = b"".join(x.to_bytes(4, "little") for x in h)
        w.ev("compress")
        w.case(d)
        if got != hashlib.blake2s(d).digest():
            w.violation("blake2s", "blake2s_compress chained over %d bytes is not BLAKE2s" % len(d), {"data": d})
        # last-node flag and 64-bit counter, against a direct transcription of RFC 7693
        m = [r.getrandbits(32) for _ in range(16)]
        h = [r.getrandbits(32) for _ in range(8)]
        t0, t1, f0, f1 = r.getrandbits(32), r.choice([0, r.getrandbits(32)]), r.choice([0, 0xFFFFFFFF]), r.choice([0, 0xFFFFFFFF])
        got = b2.blake2s_compress(list(h), list(m), t0, t1, f0, f1)
        if got != rfc7693(h, m, t0, t1, f0, f1):
            w.violation("blake2s", "blake2s_compress differs from RFC 7693", {"h": h, "m": m, "t": [t0, t1], "f": [f0, f1]})
        # felts
        P = r.choice([b2.PRIME] * 4 + [(1 << 61) - 1, 12289])
        data = [r.choice([0, 1, (1 << 63) - 1, 1 << 63, P - 1, P, P + 5, r.getrandbits(62), r.getrandbits(250), -1, (1 << 64) + 3]) for _ in range(r.choice([0, 1, 2, 3, 7, 8, 9, 16, r.randrange(40)]))]
        enc, le = r.random() < .5, r.random() < .5
        words = []
        for x in data:
            x %= P
            k = 2 if enc and x < 1 << 63 else 8
            if enc and k == 8:
                x |= 1 << 255
            ws = [(x >> (32 * j)) & 0xFFFFFFFF for j in range(k)]
            words += ws if le else ws[::-1]
        want = int.from_bytes(hashlib.blake2s(b"".join(x.to_bytes(4, "little") for x in words)).digest(), "little") % P
        keep = list(data)
        got = b2.calculate_blake2s_hash_from_felt252s(data, enc, le, P)
        w.ev("felts")
        w.case(repr((data, enc, le, P)))
        if got != want or data != keep:
            w.violation("felts", "the felt hash is %d, should be %d" % (got, want), {"data": data, "encode": enc, "little_endian": le, "prime": P})


def rfc7693(h, m, t0, t1, f0, f1):
    IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
    S = ["0123456789ABCDEF", "EA489FD61C02B753", "B8C052FDAE367194", "7931DCBE265A40F8", "9057 24AFE1BC683D".replace(" ", ""),
         "2C6A0B834D75FE19", "C51FED4A0763928B", "DB7EC13950F4862A", "6FE9B308C2D714A5", "A2847615FB9E3CD0"]
    M = 0xFFFFFFFF
    v = list(h) + IV[:4] + [IV[4] ^ t0, IV[5] ^ t1, IV[6] ^ f0, IV[7] ^ f1]

    def rot(x, k):
        return (x >> k | x << (32 - k)) & M

    def G(a, b, c, d, x, y):
        v[a] = (v[a] + v[b] + x) & M
        v[d] = rot(v[d] ^ v[a], 16)
        v[c] = (v[c] + v[d]) & M
        v[b] = rot(v[b] ^ v[c], 12)
        v[a] = (v[a] + v[b] + y) & M
        v[d] = rot(v[d] ^ v[a], 8)
        v[c] = (v[c] + v[d]) & M
        v[b] = rot(v[b] ^ v[c], 7)
    for s in S:
        s = [m[int(c, 16)] for c in s]
        for j, (a, b, c, d) in enumerate([(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]):
            G(a, b, c, d, s[2 * j], s[2 * j + 1])
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]


def plan(R):
    k = 6 if R.quick else 150
    t = []
    for name, c in (("SHAKE", 20), ("KeccakPRNG", 400), ("KeccaXOF", 400), ("Blake2sPRNG", 400)):
        for p in range(3 if name == "SHAKE" else 1):
            t.append(("streams", dict(name=name, count=c * k, steps=60, part=p)))
        t.append(("points", dict(name=name, count=(8 if name == "SHAKE" else 150) * k)))
    for p in range(2):
        t.append(("sponge", dict(count=300 * k, part=p)))
    t.append(("blake", dict(count=1000 * k)))
    for name, b in (("SHAKE", 1500), ("KeccakPRNG", 66500), ("KeccaXOF", 20000), ("Blake2sPRNG", 66500)):
        for p in range(1 if R.quick else 10):
            t.append(("far", dict(name=name, blocks=b, part=90 + p)))
    return t


def strip(f):
    return lambda w, part=0, **k: f(w, **k)


if __name__ == "__main__":
    pool.check("P06", "one stream, digest or point compared with the model; distinct by (function, input, bytes read)",
               {f.__name__: strip(f) for f in (streams, far, sponge, points, blake)}, plan,
               {"read-SHAKE": 500, "read-KeccakPRNG": 5000, "read-KeccaXOF": 5000, "read-Blake2sPRNG": 5000, "misuse": 1000,
                "sponge": 500, "points": 400, "points-over-limit": 10, "compress": 900, "felts": 900, "far-blocks": 140000})
