"""P11: the vector generators write what the committed vectors say, and every vector they write, for any messages and
salts, is a correct one."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vh import build, mon, pool, pyref, pyspec, ref
from vh.ref import Q

N = 512
GENS = {"falcon": {"ethfalcon.t.sol": "KeccakPRNG", "falcon.t.sol": "SHAKE", "zkfalcon.t": "Blake2sPRNG"},
        "epervier": {"ethepervier.t.sol": "KeccakPRNG", "epervier.t.sol": "SHAKE"},
        "hashtopoint": {"HashToPointEVMVectors.t.sol": "KeccakPRNG", "HashToPointNISTVectors.t.sol": "SHAKE", "HashToPointZKVectors.t": "Blake2sPRNG"},
        "falcon_core": {"ethfalcon_core.t.sol": "KeccakPRNG", "falcon_core.t.sol": "SHAKE"}}
DRIVER = r'''
import runpy, sys, types
root, gen, seed, messages = sys.argv[1], sys.argv[2], bytes.fromhex(sys.argv[3]), eval(sys.argv[4])
sys.path.insert(0, root)
if seed:
    import shake
    old = shake.SHAKE.new.__func__ if hasattr(shake.SHAKE.new, "__func__") else shake.SHAKE.new
    bound = shake.SHAKE.new
    def new(data=b"", *a, **k):
        f = sys._getframe(1).f_code.co_filename
        return bound(seed if data == b"" and "test_vectors" in f else data, *a, **k)
    shake.SHAKE.new = staticmethod(new)
if messages and gen != "falcon":
    m = types.ModuleType("generate_falcon_test_vectors")
    m.list_of_messages = messages
    sys.modules["generate_falcon_test_vectors"] = m
sys.argv = ["generate"]
g = runpy.run_path("%s/generate_%s_test_vectors.py" % (root, gen), run_name="__main__")
for v in list(g.values()):  # left open at the end of the program
    if hasattr(v, "flush") and hasattr(v, "close"):
        v.close()
'''


def run(w, gen, seed, messages, case):
    d = os.path.join(build.scratch(), "gen-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/pythonref")
    os.makedirs(d + "/test")
    with open(d + "/driver.py", "w") as f:
        f.write(DRIVER)
    try:
        p = subprocess.run([sys.executable, d + "/driver.py", pyref.ROOT, gen, seed.hex(), repr(messages)], cwd=d + "/pythonref", capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(mon.VERIF, "stubs")))
        if p.returncode:
            w.violation("generator-fails", "generate_%s_test_vectors.py ends with %d: %s" % (gen, p.returncode, p.stderr[-400:]), case)
            return {}
        return {f: open(d + "/test/" + f).read() for f in os.listdir(d + "/test")}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def nums(s):
    """The literals, in order: numbers, strings and identifiers followed by an assignment."""
    s = re.sub(r"//[^\n]*", "", s)
    return re.findall(r'"(?:[^"\\]|\\.)*"|\b\d+\b|\b0x[0-9a-fA-F]+\b', s)


def text(lit):
    s = lit[1:-1]
    return bytes.fromhex(s.replace("\\x", "")) if s.startswith("\\x") else s.encode()


def words(v):
    return [w >> (16 * i) & 0xffff for w in v for i in range(16)]


def vectors(s):
    """One dict per test function: arrays, strings and numbers by their name."""
    out = []
    for part in re.split(r"function\s+testVector\d+", s)[1:]:
        d = {"salt": b"", "message": b""}
        for m in re.finditer(r"(\w+)\s*=\s*\[([^\]]*)[\];]", part):
            if not part[:m.start()].split("\n")[-1].lstrip().startswith("//"):
                d[m.group(1)] = [int(x) for x in re.findall(r"\b\d+\b", m.group(2))]
        for m in re.finditer(r'(salt|message)\s*=\s*("(?:[^"\\]|\\.)*")', part):
            d[m.group(1)] = text(m.group(2))
        for k, p in (("hint", r"hint\s*=\s*(\d+)"), ("pk", r"address\((0x[0-9a-fA-F]+|\d+)\)")):
            m = re.search(p, part)
            if m:
                d[k] = int(m.group(1), 0)
        out.append(d)
    return out


def right(w, gen, name, xof, v, case):
    c = pyspec.h2p(xof, v["salt"], v["message"], N)
    w.ev("vectors-" + gen)
    w.case((name, v["salt"], v["message"]))
    case = dict(case, file=name, salt=v["salt"], message=v["message"])
    if len(v["salt"]) != 40:
        w.violation("salt", "%s: a salt of %d bytes" % (name, len(v["salt"])), case)
    if gen == "hashtopoint":
        if v.get("expected_hash") != [int(x) for x in c]:
            w.violation("hash", "%s: the hashed point is wrong" % name, case)
        return
    if gen == "falcon_core" and v.get("_hashed") != [int(x) for x in c]:
        w.violation("hash", "%s: the hashed point is wrong" % name, case)
    if gen == "epervier":
        s1, s2 = ([int(x) for x in ref.centre(words(v[k]))] for k in ("tmp_s1", "tmp_s2"))
        t = ref.ntt([x % Q for x in s2])
        p = 1
        for x in t:
            p = p * int(x) % Q
        if p * v["hint"] % Q != 1:
            w.violation("hint", "%s: the hint is not the inverse of the product" % name, case)
            return
        h = ref.ntt(np.asarray(c, dtype=np.int64) - np.asarray(s1)) * np.asarray([pow(int(x), -1, Q) for x in t]) % Q
        if pyspec.address(h) != v["pk"]:
            w.violation("address", "%s: another key is recovered" % name, case)
    else:
        u = words(v["tmp_pkc"])
        s2 = [int(x) for x in ref.centre(words(v["tmp_s2"]))]
        s1 = ref.centre(np.asarray(c, dtype=np.int64) - ref.mulq(s2, ref.intt(u)))
    if ref.norm2(s1, s2) > pyspec.BOUND[N]:
        w.violation("norm", "%s: the signature is not short" % name, case)
    w.sample({"file": name, "norm": int(ref.norm2(s1, s2))})


def committed(w, gen):
    case = {"generator": gen}
    w.now(case)
    out = run(w, gen, b"", None, case)
    for name, xof in GENS[gen].items():
        want = open(os.path.join(mon.REPO, "test", name)).read()
        w.ev("files")
        if out and nums(out.get(name, "").replace("uint(", "uint256(")) != nums(want):
            a, b = nums(out.get(name, "")), nums(want)
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            w.violation("committed", "test/%s: literal %d of %d/%d is %s, committed %s" % (name, i, len(a), len(b), a[i:i + 1], b[i:i + 1]), dict(case, file=name))
        for v in vectors(want):
            right(w, gen, name, xof, v, dict(case, committed=True))
            w.ev("committed-vectors")


def varied(w, gen, part):
    r = w.rng
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,!?-+*/()"
    messages = ["".join(r.choice(al) for _ in range(r.choice([1, 31, 32, 33, 96, 135, 136, r.randrange(2, 600)]))) for _ in range(3)]
    seed = r.randbytes(r.choice([1, 32, 135, 136, 200]))
    case = {"generator": gen, "seed": seed, "messages": messages}
    w.now(case)
    out = run(w, gen, seed, messages, case)
    salts = set()
    for name, xof in GENS[gen].items():
        vs = vectors(out.get(name, ""))
        if out and len(vs) != (5 if gen == "falcon" else 3):
            w.violation("count", "%s: %d vectors" % (name, len(vs)), case)
        for i, v in enumerate(vs):
            if gen != "falcon" and v["message"] != messages[i].encode():
                w.violation("message", "%s: vector %d has another message" % (name, i), case)
            right(w, gen, name, xof, v, case)
            w.ev("varied-vectors")
            if v["salt"] in salts:
                w.violation("salt", "%s: one salt twice" % name, case)
            salts.add(v["salt"])


def records(s):
    return [dict(l.split(" = ", 1) if " = " in l else (l.split(" =")[0], "") for l in b.splitlines() if " =" in l) for b in s.split("\n\n") if "count = " in b]


def rsp(w, part, n):
    """generate_kat_rsp.py on request files of our own, with keys of the committed answers."""
    r = w.rng
    keys = records(open(os.path.join(mon.REPO, "test", "falcon512-KAT.rsp")).read())
    keys = r.sample(keys, n)
    d = os.path.join(build.scratch(), "rsp-%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        recs, seed = [], None
        for i, k in enumerate(keys):
            m = r.randbytes(r.choice([1, 2, 33, 95, 96, 97, r.randrange(1, 2000)]))
            seed = seed if seed and r.random() < .3 else r.randbytes(48)
            recs.append((i, seed, m, k))
        case = {"seeds": [x[1] for x in recs], "messages": [x[2] for x in recs], "keys": [x[3]["count"] for x in recs]}
        w.now(case)
        with open(d + "/x-KAT.req", "w") as f, open(d + "/x-KAT.rsp", "w") as g:
            g.write("# Falcon-512\n\n")
            for i, sd, m, k in recs:
                t = "count = %d\nseed = %s\nmlen = %d\nmsg = %s\n" % (i, sd.hex().upper(), len(m), m.hex().upper())
                f.write(t + "pk =\nsk =\nsmlen =\nsm =\n\n")
                g.write(t + "pk = %s\nsk = %s\nsmlen = 0\nsm = 00\n\n" % (k["pk"], k["sk"]))
        p = subprocess.run([sys.executable, os.path.join(pyref.ROOT, "scripts", "generate_kat_rsp.py"), d + "/x-KAT.req", d + "/out.rsp"], cwd=d, capture_output=True, text=True,
                           timeout=600, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(mon.VERIF, "stubs")))
        if p.returncode:
            w.violation("generator-fails", "generate_kat_rsp.py ends with %d: %s" % (p.returncode, p.stderr[-400:]), case)
            return
        out = records(open(d + "/out.rsp").read())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(out) != len(recs):
        w.violation("count", "%d records for %d requests" % (len(out), len(recs)), case)
        return
    salts = {}
    for (i, sd, m, k), o in zip(recs, out):
        c = dict(case, record=i)
        w.ev("rsp-records")
        w.case(("rsp", sd, m, k["count"]))
        if (int(o["count"]), o["seed"].lower(), int(o["mlen"]), o["msg"].lower(), o["pk"].lower(), o["sk"].lower()) != \
                (i, sd.hex(), len(m), m.hex(), k["pk"].lower(), k["sk"].lower()):
            w.violation("rsp-fields", "record %d does not repeat its request and key" % i, c)
        sm = bytes.fromhex(o["sm"])
        salt, esig = sm[2:42], sm[42 + len(m):]
        if len(sm) != int(o["smlen"]) or sm[42:42 + len(m)] != m or esig[:1] != b"\x29":
            w.violation("rsp-layout", "record %d: sm is not length, salt, message, 0x29, signature" % i, c)
            continue
        h = [int(b, 2) for b in re.findall("." * 14, format(int(k["pk"][2:], 16), "0%db" % (14 * N)))]
        if pyspec.verdict(N, h, m, b"\x39" + salt + esig[1:], "KeccakPRNG")[0] != "ok":
            w.violation("rsp-signature", "record %d: the signature does not verify" % i, c)
        if salts.setdefault(salt, sd) != sd:
            w.violation("salt", "records of different seeds share their salt", c)


def forgery(w):
    """forgery.py: one signature, two readings of salt and message."""
    case = {"program": "forgery.py"}
    w.now(case)
    d = os.path.join(build.scratch(), "forgery-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run([sys.executable, os.path.join(pyref.ROOT, "forgery.py")], cwd=d, capture_output=True, text=True, timeout=600,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(mon.VERIF, "stubs")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode:
        w.violation("generator-fails", "forgery.py ends with %d: %s" % (p.returncode, p.stderr[-400:]), case)
        return
    arr = {m.group(1): [int(x) for x in re.findall(r"(?<![\w\[])-?\d+(?!\])", m.group(2).replace("int(", " "))]
           for m in re.finditer(r"tmp_(\w+) = \[(.*?)\];", p.stdout)}
    msg = re.findall(r'bytes memory msg\d = "(.*?)";', p.stdout)
    salt = re.findall(r'sig\.salt = "(.*?)";', p.stdout)
    h, s1 = arr.get("pk", []), arr.get("s1", [])
    w.ev("forgery-pairs", min(len(msg), len(salt)))
    if len(h) != N or len(s1) != N or len(msg) != 2 or len(salt) != 2:
        w.violation("forgery", "forgery.py prints no complete pair of vectors (%d, %d, %d, %d)" % (len(h), len(s1), len(msg), len(salt)), case)
        return
    seen = set()
    for a, b in zip(msg, salt):
        b = bytes.fromhex(b.replace("\\x", ""))
        c = pyspec.h2p("KeccaXOF", a.encode(), b, N)
        seen.add((a, b))
        if ref.norm2(ref.centre(np.asarray(c, dtype=np.int64) - ref.mulq(s1, h)), s1) > pyspec.BOUND[N]:
            w.violation("forgery", "the signature does not fit message %r with salt %r" % (a, b), dict(case, out=p.stdout[-400:]))
    if len(seen) != 2:
        w.violation("forgery", "the two readings are the same", case)


def plan(R):
    return [("rsp", dict(part=i, n=6 if R.quick else 25)) for i in range(3 if R.quick else 40)] + [("forgery", {})] * (1 if R.quick else 10) + \
         [("committed", dict(gen=g)) for g in GENS] + [("varied", dict(gen=g, part=i)) for i in range(4 if R.quick else 80) for g in GENS]


if __name__ == "__main__":
    pool.check("P11", "one generated vector; distinct by salt and message", {"committed": committed, "varied": varied, "rsp": rsp, "forgery": forgery}, plan,
               {"rsp-records": 15, "forgery-pairs": 2, "files": 10, "committed-vectors": 45, "varied-vectors": 100, "vectors-falcon": 60, "vectors-epervier": 30, "vectors-hashtopoint": 40, "vectors-falcon_core": 30},
               ["polyntt is replaced by the stand-in in /verif/stubs (not installable offline)"])
