"""S08: the storage library gives back every blob as it was written, whole and by slice, and keeps keys apart."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import mon, pool, solx
from vh.sol import rt

M = 2 ** 256 - 1
LIMIT = 24576 - 1
WRITE_ERROR = rt.selector("WriteError()")
BAD_RANGE = rt.selector("InvalidCodeAtRange(uint256,uint256,uint256)")


def world():
    solx.unit().load(os.path.join(mon.VERIF, "stubs", "sol", "probe", "Store.sol"))
    ch = solx.Chain()
    return ch, ch.deploy("StoreProbe")


def blob(r):
    k = r.randrange(9)
    n = r.choice([0, 1, 2, 30, 31, 32, 33, 63, 64, 255, 256, 257, 1024, 2113]) if k < 4 else r.randrange(900)
    if k == 4:
        n = r.choice([65534, 65535, 65536, LIMIT, LIMIT - 1, LIMIT + 1, LIMIT + 2, 24544, 16384, 8191, 30000])
    if k == 5:
        # beginnings that mean something as code, and data that is the library's own creation code
        return r.choice([b"\xef\x00", b"\xff", b"\xf3", b"\x60\x00\x60\x00\xfd", b"\x5b", b"\x00", b"\xfe", bytes.fromhex("63000000058060 0e6000396000f3".replace(" ", ""))]) + r.randbytes(r.randrange(60))
    if k == 6:
        return bytes(n)
    return r.randbytes(n)


def bounds(r, n):
    return r.choice([0, 1, 2, 31, 32, 33, n - 1, n, n + 1, n + 2, n // 2, M, M - 1, 2 ** 255, 2 ** 64, 2 ** 32, r.randrange(n + 3)]) % (M + 1)


def slices(d, a, b):
    """The answers that are right for read(a, b): bytes, or None for a revert."""
    n = len(d)
    if b is not None and b < a:
        return (b"", None) if a >= n or b == M or a == M else (None,)
    if a == M or b == M:
        return (d[a:], None)     # no such offset can be in use: refusing is as good
    return (d[a:] if b is None else d[a:b],)


def judge(w, what, ok, v, want, case):
    w.case((what, case.get("at"), case.get("start"), case.get("end"), case.get("n")))
    if not ok and None not in want:
        w.violation("refused", "%s reverts: %s" % (what, solx.why(v)), case)
    elif ok and v not in want:
        w.violation("bytes", "%s gives %d bytes %s, expected %s" % (what, len(v), v[:40].hex(), [x if x is None else "%d bytes %s" % (len(x), x[:40].hex()) for x in want]), case)


def blobs(w, n, part):
    r = w.rng
    ch, at = world()
    kept = []
    for i in range(n):
        k = r.randrange(10)
        if k < 3 or not kept:
            d = blob(r)
            case = {"data": d if len(d) < 3000 else d[:100], "n": len(d)}
            w.now(case)
            before = set(ch.w.acc)
            ok, p = ch.call(at, "write(bytes)", d, rets="address", sender=r.getrandbits(160))
            w.ev("writes")
            if len(d) > LIMIT:
                w.ev("oversize")
                if ok or p[:4] != WRITE_ERROR:
                    w.violation("oversize", "%d bytes do not fit in a contract, and write answers %s" % (len(d), hex(p) if ok else solx.why(p)), case)
                continue
            if not ok or p in before or p == 0:
                w.violation("write", "write of %d bytes answers %s" % (len(d), hex(p) if ok else solx.why(p)), case)
                continue
            if len(kept) > 30:
                kept.pop(r.randrange(len(kept)))
            kept.append((p, d))
            w.ev("written")
            judge(w, "read", *ch.call(at, "read1(address)", p, rets="bytes"), (d,), case)
            continue
        p, d = r.choice(kept)
        case = {"at": "%040x" % p, "n": len(d), "data": d[:200]}
        if k == 3:
            w.now(case)
            judge(w, "read", *ch.call(at, "read1(address)", p, rets="bytes"), (d,), case)
        elif k < 6:
            a = bounds(r, len(d))
            case["start"] = a
            w.now(case)
            w.ev("slices")
            judge(w, "read from %d" % a, *ch.call(at, "read2(address,uint256)", p, a, rets="bytes"), slices(d, a, None), case)
        elif k < 8:
            a, b = bounds(r, len(d)), bounds(r, len(d))
            if r.random() < .6:
                a, b = min(a, b), max(a, b)
            case.update(start=a, end=b)
            w.now(case)
            w.ev("slices")
            ok, v = ch.call(at, "read3(address,uint256,uint256)", p, a, b, rets="bytes")
            judge(w, "read from %d to %d" % (a, b), ok, v, slices(d, a, b), case)
            if not ok:
                w.ev("slices_refused")
        elif k == 8:
            q, e = r.choice(kept)
            w.now(case)
            w.ev("pairs")
            ok, v = ch.call(at, "both(address,address)", p, q, rets="bytes,bytes")
            if not ok or list(v) != [d, e]:
                w.violation("pair", "two reads in one call: %s" % (solx.why(v) if not ok else "lengths %s, expected %d and %d" % ([len(x) for x in v], len(d), len(e))), case)
        else:
            # the pointer is no contract to call: whatever it is sent, nothing happens and the blob stays
            w.now(case)
            w.ev("calls")
            ok, v = ch.w.call(r.getrandbits(160), p, r.randbytes(r.choice([0, 4, 36])))
            if not ok or v:
                w.violation("callable", "calling a blob answers %s %s" % (ok, v[:40].hex()), case)
            judge(w, "read", *ch.call(at, "read1(address)", p, rets="bytes"), (d,), case)
            q = r.getrandbits(160)
            if q not in ch.w.acc:
                judge(w, "read of nothing", *ch.call(at, "read1(address)", q, rets="bytes"), (b"",), {"at": "%040x" % q})
    w.sample({"blob": d[:40], "n": len(d)})


def keyed(w, n, part):
    """The table by key: each key is written once, strings by their hash, and keys do not meet."""
    r = w.rng
    ch, at = world()
    table = {}
    names = [b"", b"a", b"ab", b"b", b"a\0", bytes(32), bytes(31) + b"\1", b"x" * 33]
    words = [0, 1, 2, 2 ** 255, M] + [int.from_bytes(x.rjust(32, b"\0"), "big") for x in names[:4]]
    for i in range(n):
        s = r.choice(names + [r.randbytes(r.randrange(40))]) if r.random() < .5 else None
        key = int.from_bytes(rt.keccak(s), "big") if s is not None else r.choice(words + list(table) + [r.getrandbits(256)])
        arg, ty, pre = (s, "string", "s") if s is not None else (key, "bytes32", "m")
        case = {"key": s if s is not None else "%064x" % key, "kind": ty, "n": len(table.get(key, b""))}
        if r.random() < .3:
            d = blob(r)
            case["data"] = d[:300]
            w.now(case)
            ok, p = ch.call(at, pre + "write(%s,bytes)" % ty, arg, d, rets="address")
            w.ev("keyed_writes")
            w.case(("kw", key, d[:40], len(d)))
            if key in table or len(d) > LIMIT:
                w.ev("keyed_refusals")
                if ok:
                    w.violation("rewritten" if key in table else "oversize", "a key in use, or too many bytes, and write answers %x" % p, case)
            elif not ok:
                w.violation("write", "write under a new key reverts: %s" % solx.why(p), case)
            else:
                table[key] = d
                judge(w, "keyed read", *ch.call(at, pre + "read1(%s)" % ty, arg, rets="bytes"), (d,), case)
            continue
        d = table.get(key, b"")
        a, b = bounds(r, len(d)), bounds(r, len(d))
        case.update(start=a, end=b)
        w.now(case)
        w.ev("keyed_reads")
        w.ev("keyed_reads_of_something" if key in table else "keyed_reads_of_nothing")
        k = r.randrange(3)
        if k == 0:
            judge(w, "keyed read", *ch.call(at, pre + "read1(%s)" % ty, arg, rets="bytes"), (d,), case)
        elif k == 1:
            judge(w, "keyed read from %d" % a, *ch.call(at, pre + "read2(%s,uint256)" % ty, arg, a, rets="bytes"), slices(d, a, None), case)
        else:
            want = slices(d, a, b) if key in table else (b"", None)
            judge(w, "keyed read from %d to %d" % (a, b), *ch.call(at, pre + "read3(%s,uint256,uint256)" % ty, arg, a, b, rets="bytes"), want, case)


def plan(R):
    q = R.quick
    return [("blobs", dict(n=3000 if q else 60000, part=p)) for p in range(5)] + [("keyed", dict(n=2500 if q else 50000, part=p)) for p in range(3)]


if __name__ == "__main__":
    pool.check("S08", "one write or read of the storage library by pointer or key and bounds", {"blobs": blobs, "keyed": keyed}, plan,
               {"written": 300, "oversize": 10, "slices": 600, "slices_refused": 40, "pairs": 100, "calls": 100, "keyed_writes": 150, "keyed_reads_of_something": 150, "keyed_refusals": 30},
               ["the Solidity translator of vh/sol gives the language's meaning; creation code is run by its small EVM",
                "SSTORE2Map on a stand-in for the create3 package (a table of addresses), which is not in the repository"])
