"""Builds of the Poseidon2 wrappers (hash/src/*/src/lib.rs) against stand-ins for the crates they wrap."""
import os
from . import build, mon

STUBS = os.path.join(mon.VERIF, "stubs", "rust")
CRATES = [("ark_ff", []), ("zkhash", ["ark_ff"]), ("rand", []), ("rand_xoshiro", ["rand"]), ("p3_field", []), ("p3_symmetric", []),
          ("p3_baby_bear", ["p3_field", "p3_symmetric", "rand"]), ("p3_poseidon2", []), ("p3_monty_31", [])]
BACK = {"EF": "poseidon2_EF", "Plonky3": "poseidon2_Plonky3"}


def wrapper(back):
    """The shared library of one back end, in a directory laid out as the Python caller expects it (build/ beside python/)."""
    d = os.path.join(build.scratch(), "rust")
    os.makedirs(d, exist_ok=True)
    for name, deps in CRATES:
        out = os.path.join(d, "lib%s.rlib" % name)
        if not os.path.exists(out):
            build.sh(["rustc", "--edition", "2021", "-O", "--crate-type", "rlib", "--crate-name", name, "-L", d, "--out-dir", d]
                     + sum([["--extern", "%s=%s/lib%s.rlib" % (x, d, x)] for x in deps], []) + [os.path.join(STUBS, name + ".rs")], cwd=d)
    b = os.path.join(d, back, "build")
    os.makedirs(b, exist_ok=True)
    so = os.path.join(b, "libposeidon2_wrapper.so")
    if not os.path.exists(so):
        build.sh(["rustc", "--edition", "2021", "-O", "-A", "warnings", "--crate-type", "cdylib", "--crate-name", "poseidon2_wrapper", "-L", d]
                 + sum([["--extern", "%s=%s/lib%s.rlib" % (n, d, n)] for n, _ in CRATES], [])
                 + ["-o", so, os.path.join(mon.REPO, "hash", "src", BACK[back], "src", "lib.rs")], cwd=d)
    return so
