"""G03: the geth precompile answers every input: true exactly for valid signatures, no panic, no memory error."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, gob, gocases, pool

YES, NO = "out " + "0" * 63 + "1", "out " + "0" * 64


def encode(parts, rng=None):
    head, tail = b"", b""
    for p in parts:
        head += (32 * len(parts) + len(tail)).to_bytes(32, "big")
        tail += len(p).to_bytes(32, "big") + p + b"\0" * (-len(p) % 32)
    return head + tail


def decode(b):
    """The three byte strings, or None: the decoding rules of the Ethereum ABI as geth applies them."""
    out = []
    for i in range(3):
        if 32 * i + 32 > len(b):
            return None
        o = int.from_bytes(b[32 * i:32 * i + 32], "big")
        if o + 32 > len(b):
            return None
        l = int.from_bytes(b[o:o + 32], "big")
        if o + 32 + l > len(b):
            return None
        out.append(b[o + 32:o + 32 + l])
    return out


def mangle(rng, b):
    k = rng.randrange(9)
    if k == 0:
        return b[:rng.choice([0, 1, 31, 32, 63, 64, 95, 96, 97, 127, 128, len(b) - 1, rng.randrange(len(b))])]
    if k == 1:
        return b + rng.randbytes(rng.choice([1, 32, 100]))
    c = bytearray(b)
    if k in (2, 3, 4):
        # offsets at their corners
        i = rng.randrange(3)
        v = rng.choice([0, 1, 31, 32, 64, 95, 96, len(b) - 32, len(b) - 31, len(b), len(b) + 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 32,
                        2 ** 64, 2 ** 256 - 1, 2 ** 256 - 32, rng.randrange(len(b))])
        c[32 * i:32 * i + 32] = v.to_bytes(32, "big")
    elif k in (5, 6):
        # lengths at their corners
        o = int.from_bytes(b[32 * (i := rng.randrange(3)):32 * i + 32], "big")
        v = rng.choice([0, 1, len(b) - o - 32, len(b) - o - 31, len(b), 2 ** 31, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 256 - 1, rng.randrange(2000)])
        c[o:o + 32] = v.to_bytes(32, "big")
    elif k == 7:
        c[rng.randrange(len(c))] ^= 1 << rng.randrange(8)
    else:
        # all three arguments the same bytes
        c[32:64] = c[0:32]
        if rng.random() < .5:
            c[64:96] = c[0:32]
    return bytes(c)


def inputs(rng, mk, n):
    for what, sig, msg, pk in gocases.triples(mk, n):
        b = encode([sig, msg, pk])
        if rng.random() < .35:
            b = mangle(rng, b)
            what = "mangled"
        elif rng.random() < .05:
            b = rng.randbytes(rng.choice([0, 1, 32, 96, 97, 128, 500]))
            what = "noise"
        yield what, b


def expected(b):
    d = decode(b)
    return None if d is None else YES if gocases.verdict(*d) else NO


def judge(w, what, b, r, case):
    e = expected(b)
    w.ev("runs")
    w.ev("runs_" + ("undecodable" if e is None else "yes" if e == YES else "no"))
    w.case((what, b[:200], len(b)))
    if r.startswith("panic"):
        w.violation("panic", "%s: the precompile panics: %s" % (what, r[:200]), case)
    elif r.split()[0] in ("dirty", "gas", "both", "differs"):
        w.violation(r.split()[0], "%s: %s" % (what, r[:200]), case)
    elif (e is None) != r.startswith("err") or (e is not None and r != e):
        w.violation("answer", "%s: answers %s, expected %s" % (what, r[:100], e or "an error"), case)


def died(w, e, what, case):
    s = str(e)
    key = "sanitizer" if "AddressSanitizer" in s else "race" if "DATA RACE" in s else "crash"
    w.violation(key, "%s: the node's process dies: %s" % (what, s[s.find("DATA RACE"):][:900] if key == "race" else pool.summarize(s)[:900]), case)


def runs(w, exe, san, n, part):
    rng = w.rng
    mk = gocases.Maker(rng)
    c = gob.Precompile(exe, san)
    r = c.ask("registry")[0]
    if r != "none":
        w.ev("registries")
        if r != TABLE:
            w.violation("registry", "the contract is in the table at %s, expected %s (fork: list and table agree: address)" % (r, TABLE), {"registry": r})
            return
    for what, b in inputs(rng, mk, n):
        case = {"what": what, "input": b if len(b) < 4000 else b[:600]}
        w.now(case)
        try:
            r = c.run(b)
        except gob.Crash as e:
            return died(w, e, what, case)
        judge(w, what, b, r, case)
    w.sample({"what": what, "input": b[:200], "reply": r})


def together(w, exe, san, n, part):
    """Different inputs at once on the one instance of the table."""
    rng = w.rng
    mk = gocases.Maker(rng)
    c = gob.Precompile(exe, san)
    xs = list(inputs(rng, mk, n))
    while xs:
        k = rng.randrange(2, 9)
        ys, xs = xs[:k], xs[k:]
        case = {"inputs": [b if len(b) < 2000 else b[:300] for _, b in ys]}
        w.now(case)
        try:
            rs = c.many([b for _, b in ys])
        except gob.Crash as e:
            return died(w, e, "concurrent calls", case)
        w.ev("batches")
        for (what, b), r in zip(ys, rs):
            w.ev("concurrent_runs", 3)
            judge(w, what, b, r, dict(case, what=what))


AT = "00" * 19 + "13"
TABLE = " ".join("%d:true:%s" % (i, AT if i >= 5 else "") for i in range(7))


def plan(R):
    build.prepare("shake")
    q = R.quick
    t = []
    for san in ("", "asan"):
        e = gob.precompile(san)
        for p in range(4):
            t.append(("runs", dict(exe=e, san=san, n=500 if q else 15000, part=p)))
    for san in ("race", "asan", ""):
        e = gob.precompile(san)
        for p in range(2):
            t.append(("together", dict(exe=e, san=san, n=250 if q else 8000, part=p)))
    return t


if __name__ == "__main__":
    pool.check("G03", "one input of the precompile", {"runs": runs, "together": together}, plan,
               {"runs": 2000, "runs_yes": 200, "runs_no": 300, "runs_undecodable": 150, "concurrent_runs": 2000},
               ["the precompile's source is extracted from geth/contracts.go and built, with the table of precompiles and RunPrecompiledContract, on stand-ins for go-ethereum's abi, common, params and tracing packages and for the other contracts"])
