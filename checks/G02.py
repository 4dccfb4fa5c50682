"""G02: the Go binding's keys and salts are fresh in every call, goroutine and process, and calls do not race."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, gob, mon, pool, ref


def many(w, exe, san, n, rounds, procs, part):
    """Everything every process and goroutine drew; all of it must differ."""
    for p in range(procs):
        c = gob.Client(exe, san)
        case = {"goroutines": n, "rounds": rounds, "build": san, "process": p}
        w.now(case)
        try:
            r = c.ask(Op="many", N=n, Rounds=rounds)
        except gob.Crash as e:
            w.violation("crash", "the process died: " + pool.summarize(str(e))[:900], case)
            return
        c.close()
        err = c.errors()
        if "ThreadSanitizer" in err:
            w.violation("race", "data race under concurrent calls: " + pool.summarize(err)[:1200], case)
        if r["panic"]:
            w.violation("panic", r["panic"], case)
            continue
        for x in r["rows"] or []:
            f = x.split()
            if f[0] == "E":
                w.violation("failed", "a concurrent call failed: " + x, case)
                continue
            w.ev("keys" if f[0] == "K" else "signatures")
            if f[0] == "K":
                w.case(("key", f[1][:80]))
                pk, sk = bytes.fromhex(f[1]), bytes.fromhex(f[2])
                d = ref.sk_decode(sk)
                h = ref.pk_decode(pk, False)
                if d is None or h is None or list(ref.mulq(d[0], h)) != [v % ref.Q for v in d[1]]:
                    w.violation("torn-key", "a key pair made concurrently is not a pair", case)
                w.drawn.append("K" + f[1][:100])
                w.drawn.append("K" + f[2][:100])
            else:
                w.case(("sig", f[1][:84]))
                w.drawn.append("N" + f[1][4:84])
    w.counters["processes_" + (san or "plain")] = procs


def outer(w, **kw):
    w.drawn = []
    many(w, **kw)
    # every process must draw its own: compare within the worker; the parent compares across workers
    seen = {}
    for x in w.drawn:
        seen[x] = seen.get(x, 0) + 1
    for x, k in seen.items():
        if k > 1:
            w.violation("repeated", "%s drawn %d times: %s" % ("the same key" if x[0] == "K" else "the same salt", k, x[1:61]), {"value": x[:90], "args": {k: v for k, v in kw.items() if k != "exe"}})
    # statistics over the salts: no bit position is stuck
    salts = [bytes.fromhex(x[1:]) for x in seen if x[0] == "N"]
    if len(salts) >= 60:
        w.ev("salt_bit_positions", 320)
        for b in range(320):
            ones = sum((s[b // 8] >> (b % 8)) & 1 for s in salts)
            if ones == 0 or ones == len(salts):
                w.violation("stuck-bit", "bit %d of %d salts never changes" % (b, len(salts)), {})
                break
    w.extra_draws = len(seen)
    w.ev("distinct_draws", len(seen))
    w.sample({"args": {k: v for k, v in kw.items() if k != "exe"}, "draws": len(w.drawn)}, limit=2)


def plan(R):
    q = R.quick
    e = {s: gob.program("harness", ["harness.go.txt"], s) for s in ("", "tsan")}
    r = gob.program("harness-race", ["harness.go.txt"], "", flags=["-race"])
    t = []
    for p in range(3):
        t.append(("outer", dict(exe=e[""], san="", n=4 + 4 * p, rounds=3 if q else 40, procs=4 if q else 12, part=p)))
    for p in range(3):
        t.append(("outer", dict(exe=e["tsan"], san="tsan", n=4 + 2 * p, rounds=2 if q else 15, procs=2 if q else 10, part=p)))
    t.append(("outer", dict(exe=r, san="race", n=8, rounds=2 if q else 15, procs=2 if q else 6, part=0)))
    return t


if __name__ == "__main__":
    pool.check("G02", "a key or a salt drawn through the binding, by its value", {"outer": outer}, plan,
               {"keys": 200, "signatures": 600, "processes_tsan": 1, "processes_plain": 1, "distinct_draws": 800},
               ["the C side runs under ThreadSanitizer (cgo calls appear ordered to it only where Go orders them) and the Go side under -race"])
