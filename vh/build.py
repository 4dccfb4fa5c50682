"""Builds of /repo's C sources in a scratch directory that goes away with the process."""
import atexit, glob, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import mon

SRC = os.path.join(mon.REPO, "falcon", "nistfalcon", "src")
CSRC = os.path.join(mon.VERIF, "csrc")
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    """This process's scratch directory (workers get their parent's through VH_SCRATCH)."""
    global _scratch
    if _scratch is None:
        if os.environ.get("VH_SCRATCH"):
            _scratch = os.environ["VH_SCRATCH"]
        else:
            _scratch = tempfile.mkdtemp(prefix="vh-")
            pid = os.getpid()

            def clean(d=_scratch):
                if os.getpid() == pid:
                    shutil.rmtree(d, ignore_errors=True)
            atexit.register(clean)
    return _scratch


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout


SAN = {
    "": ["-O2"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "msan": ["-O1", "-g1", "-fsanitize=memory", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"],
    "O3": ["-O3"],
}


def falcon_sources(katrng=False):
    fs = sorted(glob.glob(os.path.join(SRC, "*.c")))
    return [f for f in fs if katrng or os.path.basename(f) != "katrng.c"]


def objects(name, sources, flags, cc="gcc"):
    d = os.path.join(scratch(), "obj-" + name)
    os.makedirs(d, exist_ok=True)
    base = [cc, "-c", "-w", "-fPIC", "-DALGNAME=falcon512int", "-I", SRC, "-I", CSRC] + list(flags)

    def one(src):
        o = os.path.join(d, os.path.basename(src)[:-2] + ".o")
        sh(base + ["-o", o, src])
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, sources))


def lib(mode="shake", san="", extra=(), katrng=False, cc="gcc"):
    """Shared library of the whole C reference plus our randombytes shim and wrappers of the inline functions.
    mode: shake | eth (the -DETHFALCON build)."""
    name = "%s-%s%s-%s" % (mode, san or "plain", "-katrng" if katrng else "", cc)
    out = os.path.join(scratch(), "lib%s.so" % name)
    if os.path.exists(out):
        return out
    flags = list(SAN[san]) + (["-DETHFALCON"] if mode == "eth" else []) + list(extra)
    srcs = falcon_sources(katrng)
    mine = [os.path.join(CSRC, "wrap.c")] + ([] if katrng else [os.path.join(CSRC, "rb_shim.c")])
    objs = objects(name, srcs + mine, flags, cc)
    sh([cc, "-shared", "-o", out + ".tmp"] + [f for f in flags if f.startswith("-fsan")] + objs + ["-lm"])
    os.replace(out + ".tmp", out)
    return out


def scripted(san=""):
    """The library with the hash-to-point functions reading a chosen stream (csrc/scr.c) instead of a hash."""
    out = os.path.join(scratch(), "libscripted-%s.so" % (san or "plain"))
    if os.path.exists(out):
        return out
    flags = list(SAN[san]) + ["-DETHFALCON"]
    common = os.path.join(SRC, "common.c")
    objs = objects("scr-" + san, [f for f in falcon_sources() if f != common] + [os.path.join(CSRC, m) for m in ("scr.c", "rb_shim.c", "wrap.c")], flags)
    objs += objects("scr2-" + san, [common], flags + ["-Dfalcon_inner_i_shake256_extract=scr_shake_extract", "-Dfalcon_inner_i_keccak256_extract=scr_keccak_extract"])
    sh(["gcc", "-shared", "-o", out + ".tmp"] + [f for f in flags if f.startswith("-fsan")] + objs + ["-lm"])
    os.replace(out + ".tmp", out)
    return out


def exe(name, mine, mode="shake", san="", extra=(), cc="gcc", katrng=False, libs=(), shim=True):
    out = os.path.join(scratch(), name)
    flags = list(SAN[san]) + (["-DETHFALCON"] if mode == "eth" else []) + list(extra)
    srcs = falcon_sources(katrng) + [os.path.join(CSRC, m) for m in mine]
    if shim and not katrng:
        srcs.append(os.path.join(CSRC, "rb_shim.c"))
    objs = objects("exe-" + name, srcs, flags, cc)
    sh([cc, "-o", out] + [f for f in flags if f.startswith("-fsan")] + objs + list(libs) + ["-lm", "-lpthread"])
    return out


def asan_preload():
    p = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    u = subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    return os.path.realpath(p) + " " + os.path.realpath(u)


def prepare(*specs):
    """Build libraries ('mode' or 'mode/san') at the same time, before workers need them."""
    scratch()
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda x: lib(*(x.split("/"))), specs))
