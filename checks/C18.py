"""C18: the C interface used by several threads does, in each, what it does alone, without a data race."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool


def threads(w, exe, san, n, rounds, seed):
    env = pool.san_env("tsan")
    p = subprocess.run([exe, str(n), str(rounds), str(seed)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1500)
    out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    case = {"argv": [n, rounds, seed], "build": san}
    if "WARNING: ThreadSanitizer" in err:
        where = re.search(r"#0 (\w+)", err)
        w.violation("race", "data race: " + pool.summarize(err)[:1200], dict(case, where=where.group(1) if where else ""))
        return
    for l in out.splitlines():
        if l.startswith("MISMATCH"):
            w.violation("differs", l, case)
            return
    if p.returncode < 0:
        w.violation("crash", "signal %d" % -p.returncode, case)
        return
    if p.returncode:
        w.inconclusive.append("threads ended with %d: %s %s" % (p.returncode, out[-300:], err[-300:]))
        return
    ops = int(re.search(r"ops=(\d+)", out).group(1))
    w.ev("operations", ops)
    w.ev("runs_" + (san or "plain"))
    w.evaluations += ops
    w.case((seed, n, os.path.basename(exe)))
    w.evaluations -= 1
    w.sample(dict(case, operations=ops), limit=2)


def plan(R):
    q = R.quick
    t = []
    for mode in ("shake", "eth"):
        e = build.exe("thr-tsan-" + mode, ["threads.c"], mode=mode, san="tsan", cc="clang")
        f = build.exe("thr-" + mode, ["threads.c"], mode=mode, san="", cc="gcc")
        for p in range(3):
            t.append(("threads", dict(exe=e, san="tsan", n=4 + p, rounds=2 if q else 40, seed=R.seed * 100 + p)))
        for p in range(3):
            t.append(("threads", dict(exe=f, san="", n=8, rounds=6 if q else 150, seed=R.seed * 100 + 50 + p)))
    return t


if __name__ == "__main__":
    pool.check("C18", "one run of n threads (concurrent, then one at a time); evaluations are interface calls", {"threads": threads}, plan,
               {"operations": 4000, "runs_tsan": 4, "runs_plain": 4},
               ["randombytes is replaced by a per-thread generator: the generator of the known-answer tests is a single global by design"], par=3)
