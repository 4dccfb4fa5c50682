"""H01: the Poseidon2 wrappers hand the 24 words to the permutation and its 24 results back, exactly, and touch nothing else.

The crates behind the wrappers cannot be fetched: stand-ins with their interface and field take their place, and mix the state
in a way that shows every word, its position and its reduction; the same mixing in Python is the oracle."""
import ctypes, mmap, os, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import mon, pool, rustlib

P = 0x78000001
M64 = (1 << 64) - 1
EDGE = [0, 1, 2, P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 2, 255, 65536]


def mix(v, const):
    v = [x % P for x in v]
    for r in range(4):
        for i in range(24):
            v[i] = (v[i] * (i + 2) + v[(i + 1) % 24] ** 2 + const(r, i)) % P
    return v


def drawn():
    """The eight constants that the stand-in draws from Xoroshiro128Plus seeded with 1 (its own sequence)."""
    s = (1 * 0x9E3779B97F4A7C15) & M64 ^ 1001
    out = []
    for _ in range(8):
        s = (s * 6364136223846793005 + (1001 | 1)) & M64
        out.append((s ^ s >> 29) % P)
    return out


C = drawn()
ORACLE = {"EF": lambda v: mix(v, lambda r, i: 7 * r + i + 1024), "Plonky3": lambda v: mix(v, lambda r, i: C[(r + i) % 8])}


class Page:
    """24 words that end where the readable memory ends, or begin where it begins."""
    def __init__(self, atend):
        libc = ctypes.CDLL(None, use_errno=True)
        self.m = mmap.mmap(-1, 3 * 4096)
        base = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        for k in (0, 2):
            assert libc.mprotect(ctypes.c_void_p(base + k * 4096), 4096, 0) == 0
        self.off = 4096 + (4096 - 96 if atend else 0)
        self.arr = (ctypes.c_uint32 * 24).from_address(base + self.off)
        self.all = (ctypes.c_uint8 * 4096).from_address(base + 4096)
        self.lo = self.off - 4096

    def outside(self):
        b = bytes(self.all)
        return b[:self.lo] + b[self.lo + 96:]


def load(so):
    f = ctypes.CDLL(so).poseidon2_permute_babybear24
    f.argtypes, f.restype = [ctypes.c_void_p, ctypes.c_void_p], None
    return f


def words(rng):
    x = rng.random()
    if x < .3:
        return [rng.choice(EDGE) for _ in range(24)]
    if x < .5:
        v = [0] * 24
        v[rng.randrange(24)] = rng.choice(EDGE + [rng.getrandbits(32)])
        return v
    if x < .6:
        return [rng.choice(EDGE)] * 24
    return [rng.getrandbits(32) for _ in range(24)]


def direct(w, back, so, count, part):
    f = load(so)
    pages = {(k, e): Page(e) for k in "io" for e in (0, 1)}
    for k in range(count):
        v = words(w.rng)
        want = ORACLE[back](v)
        case = {"back": back, "in": v}
        w.now(case)
        w.case((back, v))
        i, o = pages["i", k & 1], pages["o", k >> 1 & 1]
        ctypes.memset(o.all, 0xA5, 4096)
        ctypes.memset(i.all, 0x5A, 4096)
        i.arr[:] = v
        f(ctypes.addressof(i.arr), ctypes.addressof(o.arr))
        w.ev("permutations")
        if any(x >= P for x in v):
            w.ev("words-to-reduce")
        got = list(o.arr)
        if got != want:
            w.violation("result", "%s: word %d of the result is %d, should be %d" % (back, *next((n, a, b) for n, (a, b) in enumerate(zip(got, want)) if a != b)), case)
        if list(i.arr) != v or set(i.outside()) != {0x5A}:
            w.violation("input", "%s changed its input" % back, case)
        if set(o.outside()) != {0xA5}:
            w.violation("outside", "%s wrote outside of its 24 words" % back, case)


def threads(w, back, so, count, part):
    f = load(so)
    for k in range(count):
        ins = [[words(w.rng) for _ in range(30)] for _ in range(8)]
        w.now({"back": back, "threads": 8})
        w.case((back, "threads", ins[0][0]))
        out = [[None] * 30 for _ in range(8)]

        def run(t):
            for n, v in enumerate(ins[t]):
                i, o = (ctypes.c_uint32 * 24)(*v), (ctypes.c_uint32 * 24)()
                f(ctypes.addressof(i), ctypes.addressof(o))
                out[t][n] = list(o)
        ts = [threading.Thread(target=run, args=(t,)) for t in range(8)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        w.ev("concurrent", 240)
        for a, b in zip(ins, out):
            for v, g in zip(a, b):
                if g != ORACLE[back](v):
                    w.violation("concurrent", "%s: a wrong result with several threads" % back, {"back": back, "in": v, "out": g})


SCRIPT = r'''
import importlib.util, json, sys
s = importlib.util.spec_from_file_location("poseidon2", sys.argv[1]); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
for line in sys.stdin:
    v = json.loads(line)
    k = list(v)
    try:
        r = m.poseidon2_permute(v)
        r = ["ok", [int(x) for x in r]]
    except ValueError:
        r = ["ValueError"]
    except Exception as e:
        r = [repr(e)]
    print(json.dumps([r, v == k]))
'''


def python(w, back, so, count, part):
    """hash/src/python/poseidon2.py on that library, from the folder it looks for the library from."""
    import json
    d = os.path.join(os.path.dirname(os.path.dirname(so)), "python-%d" % part)
    os.makedirs(d, exist_ok=True)
    vs = [words(w.rng) for _ in range(count)]
    for n in (0, 1, 23, 25, 48):
        vs.append([7] * n)
    w.now({"back": back, "python": True})
    r = subprocess.run([sys.executable, "-B", "-c", SCRIPT, os.path.join(mon.REPO, "hash", "src", "python", "poseidon2.py")], cwd=d,
                       input="".join(json.dumps(v) + "\n" for v in vs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    lines = r.stdout.splitlines()
    if len(lines) != len(vs):
        w.violation("python", "poseidon2.py ended after %d of %d calls: %s" % (len(lines), len(vs), r.stderr[-300:]), {"back": back, "in": vs[min(len(lines), len(vs) - 1)]})
        return
    for v, l in zip(vs, lines):
        got, kept = json.loads(l)
        w.case((back, "python", v))
        w.ev("python-calls" if len(v) == 24 else "python-refusals")
        want = ["ok", ORACLE[back](v)] if len(v) == 24 else ["ValueError"]
        if got != want:
            w.violation("python", "poseidon2_permute gives %s, should give %s" % (str(got)[:200], str(want)[:200]), {"back": back, "in": v})
        if not kept:
            w.violation("python-input", "poseidon2_permute changed its argument", {"back": back, "in": v})


def plan(R):
    so = {b: rustlib.wrapper(b) for b in rustlib.BACK}
    m = 1 if R.quick else 20
    return [(job, dict(back=b, so=so[b], count=c * m, part=p)) for b in so for p in range(2)
            for job, c in (("direct", 1500), ("threads", 6), ("python", 150))]


if __name__ == "__main__":
    pool.check("H01", "one 24-word input through one wrapper", {"direct": direct, "threads": threads, "python": python}, plan,
               {"permutations": 3000, "words-to-reduce": 500, "concurrent": 1000, "python-calls": 200, "python-refusals": 10})
