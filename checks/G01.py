"""G01: the Go binding signs and verifies messages of every size, by the reference's predicate, and never faults."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, gob, gocases, pool, ref


def crashed(w, e, case):
    s = str(e)
    w.violation("sanitizer" if "AddressSanitizer" in s or "runtime error" in s else "crash", "the process died: " + pool.summarize(s)[:900], case)


def small(case):
    return {k: (v[:40].hex() + ".. %d bytes" % len(v) if isinstance(v, bytes) and len(v) > 2000 else v) for k, v in case.items()}


def verify(w, exe, san, n, part):
    mk = gocases.Maker(w.rng)
    c = gob.Client(exe, san)
    for what, sig, msg, pk in gocases.triples(mk, n):
        case = small({"what": what, "sig": sig, "msg": msg, "pk": pk})
        w.now(case)
        rq = dict(Op="verify", Sig=sig, Msg=msg, Pk=pk, Spare=w.rng.choice([0, 0, 7]))
        for f, v in (("Sig", sig), ("Msg", msg), ("Pk", pk)):
            if not v and w.rng.random() < .5:
                del rq[f]                # nil instead of empty
        try:
            r = c.ask(**rq)
        except gob.Crash as e:
            crashed(w, e, case)
            return
        w.ev("verified")
        w.ev("verify_" + what)
        w.case((what, sig[:60], len(sig), msg[:8], len(msg), pk[:30]))
        e = gocases.verdict(sig, msg, pk)
        if e:
            w.ev("accepted")
        if r["panic"]:
            w.violation("panic", "%s: VerifySignature panics: %s" % (what, r["panic"][:200]), case)
        elif r["ok"] != e:
            w.violation("verdict", "%s: VerifySignature says %s (%s), the predicate %s" % (what, r["ok"], r["err"], e), case)
        elif r["ok"] and r["err"]:
            w.violation("verdict", "%s: valid, and an error: %s" % (what, r["err"]), case)
        if r["dirty"]:
            w.violation("inputs", "%s: the caller's slices were written to" % what, case)
        if r["stale"]:
            w.violation("results", "%s: what an earlier call returned has changed" % what, case)
    c.close()
    w.sample({"last": case})


def sign(w, exe, san, n, part):
    rng = w.rng
    mk = gocases.Maker(rng)
    c = gob.Client(exe, san)
    try:
        r = c.ask(Op="keygen")
        if r["panic"] or r["err"]:
            w.violation("keygen", "GenerateKeypair fails: %s%s" % (r["panic"], r["err"]), {})
            return
        own = (bytes.fromhex(r["a"]), bytes.fromhex(r["b"]))
        f, g, F = ref.sk_decode(own[1]) or (None, None, None)
        h = ref.pk_decode(own[0], False)
        if f is None or h is None or list(ref.mulq(f, h)) != [v % ref.Q for v in g]:
            w.violation("keygen", "the generated pair is not a pair", {"pk": own[0], "sk": own[1]})
            return
        for i in range(n):
            pk, sk = rng.choice([own, mk.keys[0], mk.keys[1]])
            m = mk.msg()
            k = rng.randrange(10)
            if k == 0:
                sk = rng.choice([b"", sk[:1], sk[:-1], sk + b"\0", sk[:640]])
            elif k == 1:
                sk = bytes([rng.choice([0, 0x49, 0x5a, 0xd9])]) + sk[1:]
            case = small({"msg": m, "sk": sk})
            w.now(case)
            rq = dict(Op="sign", Msg=m, Sk=sk, Spare=rng.choice([0, 0, 9]), N=i)
            if not m and rng.random() < .5:
                del rq["Msg"]
            if not sk and rng.random() < .5:
                del rq["Sk"]
            r = c.ask(**rq)
            w.ev("signed")
            w.case((m[:40], len(m), sk[:30], len(sk)))
            if r["panic"]:
                w.violation("panic", "SignMessage panics on %d bytes: %s" % (len(m), r["panic"][:200]), case)
                continue
            if r["dirty"]:
                w.violation("inputs", "the caller's slices were written to", case)
            if r["stale"]:
                w.violation("results", "what an earlier call returned has changed, or shares memory with the caller's arguments", case)
            sm = bytes.fromhex(r["a"])
            if k <= 1:
                w.ev("bad_secret_keys")
                if not r["err"] or sm:
                    w.violation("bad-sk", "signing with a damaged secret key of %d bytes gives a signature" % len(sk), case)
                continue
            if len(m) >= 1 << 16:
                w.ev("huge_messages")
            if len(m) > 1024:
                w.ev("long_messages")
            if r["err"]:
                w.violation("sign", "SignMessage fails on %d bytes: %s" % (len(m), r["err"]), case)
            elif not gocases.verdict(sm, m, pk):
                w.violation("sign", "what SignMessage makes for %d bytes is not a signature of them" % len(m), case)
            else:
                v = c.ask(Op="verify", Sig=sm, Msg=m, Pk=pk)
                w.ev("roundtrips")
                if not v["ok"] or v["err"] or v["panic"]:
                    w.violation("roundtrip", "own signature on %d bytes refused: %s%s" % (len(m), v["err"], v["panic"]), case)
    except gob.Crash as e:
        crashed(w, e, case)
        return
    c.close()


def plan(R):
    build.prepare("shake")
    q = R.quick
    t = []
    for san in ("", "asan"):
        e = gob.program("harness", ["harness.go.txt"], san)
        k = 1 if not san else .5
        for p in range(3):
            t.append(("verify", dict(exe=e, san=san, n=int((500 if q else 15000) * k), part=p)))
            t.append(("sign", dict(exe=e, san=san, n=int((150 if q else 5000) * k), part=p)))
    return t


if __name__ == "__main__":
    pool.check("G01", "one call of the Go interface, by the kind of input and its bytes", {"verify": verify, "sign": sign}, plan,
               {"verified": 1000, "accepted": 200, "signed": 300, "long_messages": 50, "huge_messages": 4, "roundtrips": 200, "bad_secret_keys": 30})
