"""C20: the C programs that write the answer files write correct vectors, for the fixed generator seed and for others."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re, shutil, subprocess, tempfile
from vh import build, mon, pool, ref
from vh.cfalcon import Lib

FIXED = bytes(range(48))
ALG = "falcon512int"
# program: (file name, hash, kind)
PROGRAMS = {
    "kat512int": ("PQCsignKAT_%s", "shake", "nist"),
    "kat512int_eth": ("PQCsignKAT_%s_eth", "eth", "nist"),
    "kat512int_zknox": ("PQCsignKAT_%s_zknox", "shake", "zknox"),
    "kat512int_zknox_eth": ("PQCsignKAT_%s_zknox_eth", "eth", "zknox"),
    "kat512int_epervier_zknox": ("PQCsignKAT_%s_epervier_zknox", "shake", "epervier"),
    "kat512int_hashtopoint": ("PQChashtopointKAT_%s", "shake", "hash"),
    "kat512int_hashtopoint_eth": ("PQC_ethhashtopointKAT_%s", "eth", "hash"),
    "kat512int_falconcore": ("PQCfalconcoreKAT_%s", "shake", "core"),
}
PUBLISHED = {"kat512int": "falcon512-KAT.rsp", "kat512int_eth": "ethfalcon512-KAT.rsp"}
REQ = {"hash": ["salt", "hash"], "core": ["hashtopoint", "pk", "sk", "smlen", "sm"]}
RSP = {"hash": ["salt", "hash"], "core": ["hashtopoint", "pk", "sk", "smlen", "sm"]}
SIG = ["pk", "sk", "smlen", "sm"]


def home(san):
    return os.path.join(build.scratch(), "kat-" + (san or "plain"))


def make(san):
    """The repository's Makefile, with our flags, on a copy of its directory."""
    d = home(san)
    shutil.copytree(os.path.join(mon.REPO, "falcon", "nistfalcon"), d, ignore=shutil.ignore_patterns("build", "*.o", "*.req", "*.rsp"))
    os.mkdir(d + "/build")
    fl = " ".join(build.SAN[san])
    build.sh(["gcc", "-c", "-o", d + "/reseed.o", os.path.join(build.CSRC, "reseed.c")])
    build.sh(["make", "-j8", "-C", d, "all", "CFLAGS=-w %s -DALGNAME=%s" % (fl, ALG), "LDFLAGS=%s" % fl,
              "LIBS=-lm -Wl,--wrap=randombytes_init %s/reseed.o" % d])


def records(text):
    """The file as (preamble, list of records), a record being its (name, value) pairs in order."""
    pre, out = [], []
    for line in text.split("\n"):
        m = re.match(r"^(\w+) ?=(.*)$", line)
        if not m:
            if line.strip():
                pre.append(line)
            continue
        if m.group(1) == "count":
            out.append([])
        if not out:
            pre.append(line)
            continue
        out[-1].append((m.group(1), m.group(2).strip()))
    return pre, out


def number_list(s):
    m = re.match(r"^\[((?:\d+, ?)*\d*)\]$", s)
    return None if m is None else [int(v) for v in re.findall(r"\d+", m.group(1))]


def ended(w, program, p, case):
    err = p.stderr.decode(errors="replace")
    if p.returncode < 0 or "Sanitizer" in err or "runtime error" in err:
        w.violation("crash", "%s ends with %d: %s" % (program, p.returncode, err[:1500]), case)
        return False
    return True


def run(w, program, san, seeds, fixed=False):
    name, mode, kind = PROGRAMS[program]
    name = name % ALG
    L = Lib(mode)
    for k in range(seeds + fixed):
        ent = FIXED if fixed and k == 0 else bytes(w.rng.getrandbits(8) for _ in range(48))
        case = {"program": program, "entropy": ent.hex(), "san": san}
        w.now(case, 600)
        d = tempfile.mkdtemp(prefix="run", dir=build.scratch())
        env = dict(os.environ, KAT_ENTROPY=ent.hex(), ASAN_OPTIONS="detect_leaks=0")
        env.pop("LD_PRELOAD", None)
        if ent == FIXED:
            env.pop("KAT_ENTROPY")
        p = subprocess.run([os.path.join(home(san), "build", program)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        w.ev("runs")
        if not ended(w, program, p, case):
            continue
        if p.returncode != 0:
            w.violation("fails", "%s ends with %d: %s" % (program, p.returncode, p.stdout.decode(errors="replace")[-500:]), case)
            continue
        try:
            req, rsp = (open(os.path.join(d, name + x)).read() for x in (".req", ".rsp"))
        except OSError as e:
            w.violation("files", "%s does not write its files: %s (it wrote %s)" % (program, e, sorted(os.listdir(d))), case)
            continue
        if ent == FIXED and program in PUBLISHED:
            a, b = records(rsp), records(open(os.path.join(mon.REPO, "test", PUBLISHED[program])).read())
            w.ev("published_files")
            if a != b:
                n = [i for i, (x, y) in enumerate(zip(a[1], b[1])) if x != y]
                w.violation("published", "%s writes %d records, of which %s differ from the published %s" % (program, len(a[1]), n[:5], PUBLISHED[program]), case)
        judge(w, L, program, mode, kind, ent, req, rsp, case)
        shutil.rmtree(d)
    w.sample(case)


def judge(w, L, program, mode, kind, ent, req, rsp, case):
    D = ref.Ctr_drbg(ent)
    _, rq = records(req)
    pre, rs = records(rsp)
    if [x.strip() for x in pre] != ["# Falcon-512"]:
        w.violation("title", "%s: preamble %r" % (program, pre), case)
    if len(rq) != 100 or len(rs) != 100:
        w.violation("records", "%s writes %d requests and %d answers" % (program, len(rq), len(rs)), case)
        return
    for i, (q, a) in enumerate(zip(rq, rs)):
        seed = D.random_bytes(48)
        msg = D.random_bytes(33 * (i + 1))
        cs = dict(case, count=i)

        def bad(key, what):
            w.violation(key, "%s, record %d: %s" % (program, i, what), cs)
        head = [("count", str(i)), ("seed", seed.hex().upper()), ("mlen", str(len(msg))), ("msg", msg.hex().upper())]
        w.ev("records")
        w.case((program, ent.hex(), i))
        if q[:4] != head or [n for n, _ in q[4:]] != REQ.get(kind, SIG) or any(v not in ("", "[]") for _, v in q[4:]):
            bad("request", "request is %s" % str(q)[:300])
        hd = [("count", str(i)), ("seed", seed.hex().upper()), ("mlen", str(len(msg))), ("msg", msg.hex().upper())]
        if a[:4] != hd or [n for n, _ in a[4:]] != RSP.get(kind, SIG):
            bad("answer", "answer is %s" % str([(n, v[:80]) for n, v in a]))
            continue
        f = dict(a[4:])
        S = ref.Ctr_drbg(seed)                 # the record is a function of its own seed
        kseed, nonce = S.random_bytes(48), S.random_bytes(40)
        hm = None
        if kind in ("hash", "core"):
            lst = number_list(f["hash" if kind == "hash" else "hashtopoint"])
            hm = [int(v) for v in ref.hash_to_point(nonce + msg, mode)]
            w.ev("points")
            if lst != hm:
                bad("point", "the point is not the hash of salt and message: %s" % str(lst)[:120])
        if kind == "hash":
            if f["salt"] != nonce.hex().upper():
                bad("salt", "salt %s, the seed gives %s" % (f["salt"], nonce.hex()))
            continue
        try:
            pk, sk, sm = (bytes.fromhex(f[x]) for x in ("pk", "sk", "sm"))
        except ValueError as e:
            bad("hex", str(e))
            continue
        if f["smlen"] != str(len(sm)):
            bad("smlen", "smlen = %s for %d bytes" % (f["smlen"], len(sm)))
        zk = kind in ("zknox", "epervier")
        r, kpk, ksk = L.keypair(zk, seed=kseed)
        if sk != ksk or pk != kpk:
            bad("key", "the key is not the one its seed gives")
        t = ref.sk_decode(sk)
        h = ref.pk_decode(pk, zk)
        if t is None or h is None or len(pk) != (1025 if zk else 897):
            bad("key", "key does not decode")
            continue
        if [int(v) % ref.Q for v in ref.mulq(t[0], h)] != [int(v) % ref.Q for v in t[1]]:
            bad("key", "public and secret key do not belong together")
        w.ev("keys")
        if sm[2:42] != nonce or sm[42:42 + len(msg)] != msg:
            bad("layout", "the signed message does not hold the salt of its seed and the message")
        if kind == "epervier":
            e = ref.epervier_parts(sm)
            if e is None:
                bad("signature", "not an Epervier signed message")
                continue
            p = ref.epervier_recover(ref.hash_to_point(e[0] + e[1], mode), e[2], e[3])
            if e[1] != msg or p is None or b"\x09" + ref.pack([int(v) for v in p], 16) != pk:
                bad("signature", "the signature does not recover the key")
            if e[4] != ref.hint_of(e[3]):
                bad("hint", "hint %d, should be %s" % (e[4], ref.hint_of(e[3])))
        else:
            v, m = ref.open_verdict(sm, pk, mode, zk)
            if m != msg:
                bad("signature", "the signed message does not open: %s" % v)
        w.ev("signatures_" + kind)


def blocked(w, program, san):
    """A file that cannot be opened: the program says so."""
    name = PROGRAMS[program][0] % ALG
    for x in (".req", ".rsp"):
        d = tempfile.mkdtemp(prefix="blk", dir=build.scratch())
        os.mkdir(os.path.join(d, name + x))
        case = {"program": program, "blocked": name + x}
        w.now(case)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        p = subprocess.run([os.path.join(home(san), "build", program)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        w.ev("blocked_runs")
        w.case((program, x))
        if ended(w, program, p, case) and (p.returncode == 0 or not p.stdout + p.stderr):
            w.violation("silent", "%s ends with %d and says %r though %s cannot be written" % (program, p.returncode, p.stdout, name + x), case)
        shutil.rmtree(d)


def plan(R):
    build.prepare("shake", "eth")
    sans = ["asan"] if R.quick else ["asan", ""]
    for s in sans:
        make(s)
    t = []
    for p in PROGRAMS:
        t.append(("run", dict(program=p, san="asan", seeds=1, fixed=True)))
        t.append(("blocked", dict(program=p, san="asan")))
        if not R.quick:
            for k in range(4):
                t.append(("run", dict(program=p, san="", seeds=12, part=k, fixed=k == 0)))
    return [(j, dict({k: v for k, v in s.items() if k != "part"}, salt=i)) for i, (j, s) in enumerate(t)]


if __name__ == "__main__":
    pool.check("C20", "a record by (program, generator seed, count)", {"run": lambda w, salt, **k: run(w, **k), "blocked": lambda w, salt, **k: blocked(w, **k)}, plan,
               {"runs": 16, "records": 1600, "points": 600, "keys": 1200, "signatures_nist": 400, "signatures_zknox": 400, "signatures_epervier": 200,
                "signatures_core": 200, "published_files": 2, "blocked_runs": 16},
               ["the programs are built by the repository's Makefile with sanitizer flags; seeds other than 0..47 are injected at the first call of randombytes_init"])
