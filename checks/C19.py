"""C19: the parts documented as constant-time take no branch on, and form no address from, secret data."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import build, pool

NAMES = ["hash_to_point_ct", "shake256", "keccak256", "verify_recover", "fpr_add_mul_div_sqrt", "fpr_rounding", "fpr_expm_p63",
         "fft_algebra", "gaussian0_sampler"]


def ct(w, exe, seed, rounds):
    env = pool.san_env("msan")
    p = subprocess.run([exe, str(seed), str(rounds)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    err = p.stderr.decode(errors="replace")
    if p.returncode == pool.EXIT_SAN:
        where = re.search(r"#0 0x\w+ in (\w+)", err)
        w.violation("secret-dependent", "secret data decides a branch or an address: " + pool.summarize(err)[:1200],
                    {"argv": [seed, rounds], "where": where.group(1) if where else ""})
        return
    if p.returncode != 0:
        w.inconclusive.append("ct ended with %d: %s" % (p.returncode, err[-300:]))
        return
    ev = dict(re.findall(r"(\w+)=(\d+)", p.stdout.decode()))
    for k in NAMES:
        w.ev(k, int(ev[k]))
    w.evaluations += sum(int(ev[k]) for k in NAMES)
    for r in range(rounds):
        w.keys.add(("%d/%d" % (seed, r)).encode())
    w.sample({"seed": seed, "rounds": rounds, "calls": ev}, limit=2)


def plan(R):
    t = []
    for mode in ("shake", "eth"):
        for opt in ("-O1", "-O0"):  # -O0 keeps the branches the optimizer would turn into selections
            exe = build.exe("ct-" + mode + opt, ["ct.c"], mode=mode, san="msan", cc="clang", extra=("-fno-sanitize-memory-param-retval", opt))
            for p in range(4):
                t.append(("ct", dict(exe=exe, seed=R.seed * 1000 + p + (500 if mode == "eth" else 0), rounds=(300 if opt == "-O1" else 100) if R.quick else 4000)))
    return t


if __name__ == "__main__":
    pool.check("C19", "a call with its secret operands poisoned; distinct by (seed, round)", {"ct": ct}, plan, {k: 500 for k in NAMES},
               ["clang 18 -O1 and -O0 as compiler; the timing of single machine instructions (multiplication, 64-bit division) is not looked at",
                "the C sources are compiled as they are in the reference build (emulated floating point)"])
