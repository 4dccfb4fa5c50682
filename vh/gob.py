"""Builds of the Go binding (falcon/falcon.go with a libfalcon.a of the current sources) and a client for our driver."""
import glob, json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build, mon

GO = os.path.join(mon.VERIF, "go")


def env(extra=None):
    e = dict(os.environ)
    d = build.scratch()
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOCACHE=os.path.join(d, "gocache"),
             GOPATH=os.path.join(d, "gopath"), HOME=d, GOTELEMETRY="off", GOWORK="off")
    e.update(extra or {})
    return e


SANF = {"": [], "asan": ["-fsanitize=address", "-g1"], "tsan": ["-fsanitize=thread", "-g1"], "race": []}


def tree(san=""):
    """A scratch copy of falcon/ with libfalcon.a built as its makefile does (plus a sanitizer)."""
    d = os.path.join(build.scratch(), "go-" + (san or "plain"))
    if os.path.exists(os.path.join(d, "done")):
        return d
    f = os.path.join(d, "falcon")
    os.makedirs(os.path.join(f, "nistfalcon", "build"))
    shutil.copy(os.path.join(mon.REPO, "falcon", "falcon.go"), f)
    for x in glob.glob(os.path.join(mon.REPO, "falcon", "*.go")):
        shutil.copy(x, f)
    shutil.copy(os.path.join(mon.REPO, "falcon", "go.mod"), f)
    shutil.copytree(os.path.join(mon.REPO, "falcon", "nistfalcon", "src"), os.path.join(f, "nistfalcon", "src"),
                    ignore=shutil.ignore_patterns("*.o", "*.a"))
    cc = "clang" if san == "tsan" else "gcc"
    o = os.path.join(d, "o")
    os.makedirs(o)

    def one(src):
        out = os.path.join(o, os.path.basename(src)[:-2] + ".o")
        build.sh([cc, "-c", "-O1" if san else "-O3", "-w", "-fPIC", "-DALGNAME=falcon512int"] + SANF[san] + ["-o", out, src])
        return out
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(glob.glob(os.path.join(f, "nistfalcon", "src", "*.c")))))
    build.sh(["ar", "rcs", os.path.join(f, "nistfalcon", "build", "libfalcon.a")] + objs)
    open(os.path.join(d, "done"), "w").close()
    return d


def program(name, files, san="", gen=None, flags=()):
    """Build a main package from our .go.txt files (and generated {path: text}) next to the falcon module."""
    d = tree(san)
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    p = os.path.join(d, "src-" + name)
    os.makedirs(p)
    for src in files:
        shutil.copy(os.path.join(GO, src), os.path.join(p, os.path.basename(src)[:-4]))
    for rel, text in (gen or {}).items():
        os.makedirs(os.path.dirname(os.path.join(p, rel)) or p, exist_ok=True)
        open(os.path.join(p, rel), "w").write(text)
    if not os.path.exists(os.path.join(p, "go.mod")):
        open(os.path.join(p, "go.mod"), "w").write(
            "module drive\n\ngo 1.24\n\nrequire github.com/ZKNoxHQ/ETHFALCON/falcon v0.0.0\n\nreplace github.com/ZKNoxHQ/ETHFALCON/falcon => ../falcon\n")
    e, fl = {}, list(flags)
    if san == "asan":
        fl.append("-asan")
    if san == "race":      # Go's own detector
        fl.append("-race")
    if san == "tsan":
        e = {"CC": "clang", "CGO_CFLAGS": "-fsanitize=thread -g1", "CGO_LDFLAGS": "-fsanitize=thread"}
    build.sh(["go", "build"] + fl + ["-o", out, "."], cwd=p, env=env(e))
    return out


class Crash(Exception):
    pass


class Client:
    def __init__(self, exe, san=""):
        from . import pool
        e = pool.san_env(san if san != "asan" else "")
        e["ASAN_OPTIONS"] = "exitcode=%d:detect_leaks=0" % pool.EXIT_SAN
        self.err = open(os.path.join(build.scratch(), "go-err-%d-%d" % (os.getpid(), id(self))), "w+b")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e)

    def ask(self, **kw):
        r = {}
        for k, v in kw.items():
            r[k] = bytes(v).hex() if isinstance(v, (bytes, bytearray)) else v
        try:
            self.p.stdin.write(json.dumps(r).encode() + b"\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = b""
        if not l.endswith(b"\n"):
            rc = self.p.wait()
            raise Crash("exit %d: %s" % (rc, self.errors()))
        return json.loads(l)

    def errors(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")

    def close(self):
        self.p.stdin.close()
        return self.p.wait()


def precompile(san=""):
    """The precompile's own source, extracted from geth/contracts.go, on stand-ins for go-ethereum."""
    d = tree(san)
    x = os.path.join(build.scratch(), "extract")
    if not os.path.exists(x):
        p = os.path.join(build.scratch(), "src-extract")
        os.makedirs(p, exist_ok=True)
        shutil.copy(os.path.join(GO, "extract.go.txt"), os.path.join(p, "main.go"))
        open(os.path.join(p, "go.mod"), "w").write("module extract\n\ngo 1.24\n")
        build.sh(["go", "build", "-o", x, "."], cwd=p, env=env())
    contracts = os.path.join(mon.REPO, "geth", "contracts.go")
    rd = lambda n: open(os.path.join(GO, n)).read()
    gen = {"eth/go.mod": "module github.com/ethereum/go-ethereum\n\ngo 1.24\n",
           "eth/accounts/abi/abi.go": rd("abi.go.txt"), "eth/common/common.go": rd("common.go.txt"),
           "eth/params/params.go": rd("params.go.txt"), "eth/core/tracing/tracing.go": rd("tracing.go.txt"),
           "go.mod": "module drive\n\ngo 1.24\n\nrequire github.com/ZKNoxHQ/ETHFALCON/falcon v0.0.0\n\nrequire github.com/ethereum/go-ethereum v0.0.0\n\n"
                     "replace github.com/ZKNoxHQ/ETHFALCON/falcon => ../falcon\n\nreplace github.com/ethereum/go-ethereum => ./eth\n"}
    try:        # with the table of precompiles and the function that runs them, the other contracts left out
        src = build.sh([x, contracts, "-stub", "falcon", "ActivePrecompiledContracts", "ActivePrecompiles", "RunPrecompiledContract", "init"]).decode()
        return program("precompile", ["precompile.go.txt", "registry.go.txt"], san, gen=dict(gen, **{"falconvrfy.go": src}))
    except build.BuildError:
        src = build.sh([x, contracts, "falconvrfy"]).decode()
        return program("precompile-alone", ["precompile.go.txt", "alone.go.txt"], san, gen=dict(gen, **{"falconvrfy.go": src}))


def chain(san=""):
    """geth/contracts.go as it is, on stand-ins for everything it imports."""
    rd = lambda n: open(os.path.join(GO, n)).read()
    c = lambda n: rd("chain/" + n + ".go.txt")
    mods = {"github.com/ZKNoxHQ/ETHFALCON/falcon": "../falcon", "github.com/ethereum/go-ethereum": "./eth",
            "github.com/consensys/gnark-crypto": "./gnark", "golang.org/x/crypto": "./xcrypto"}
    need = "\n\ngo 1.24\n\n" + "".join("require %s v0.0.0\n\n" % m for m in mods)
    gen = {"eth/accounts/abi/abi.go": rd("abi.go.txt"), "eth/common/common.go": rd("common.go.txt"), "eth/core/tracing/tracing.go": rd("tracing.go.txt"),
           "eth/params/params.go": c("params"), "eth/log/log.go": c("log"), "eth/curve/curve.go": c("curve"), "eth/crypto/crypto.go": c("crypto"),
           "eth/crypto/blake2b/blake2b.go": c("blake2b"), "eth/crypto/bn256/bn256.go": c("bn256"), "eth/crypto/kzg4844/kzg4844.go": c("kzg4844"),
           "eth/core/vm/neighbours.go": c("vmcommon"), "eth/core/vm/contracts.go": open(os.path.join(mon.REPO, "geth", "contracts.go")).read(),
           "gnark/ecc/ecc.go": c("ecc"), "gnark/ecc/bls12-381/bls12381.go": c("bls12381"), "gnark/ecc/bls12-381/fp/fp.go": c("fp"),
           "gnark/ecc/bls12-381/fr/fr.go": c("fr"), "xcrypto/ripemd160/ripemd160.go": c("ripemd160"),
           "eth/go.mod": "module github.com/ethereum/go-ethereum" + need.replace("require github.com/ethereum/go-ethereum v0.0.0\n\n", ""),
           "gnark/go.mod": "module github.com/consensys/gnark-crypto\n\ngo 1.24\n\nrequire github.com/ethereum/go-ethereum v0.0.0\n",
           "xcrypto/go.mod": "module golang.org/x/crypto\n\ngo 1.24\n",
           "go.mod": "module drive" + need + "".join("replace %s => %s\n\n" % m for m in mods.items())}
    for x in glob.glob(os.path.join(mon.REPO, "geth", "*.go")):     # further files of the same package, if there are any
        t = open(x).read()
        if os.path.basename(x) != "contracts.go" and "\npackage vm" in "\n" + t:
            gen["eth/core/vm/" + os.path.basename(x)] = t
    return program("chain", ["chain/main.go.txt"], san, gen=gen)


class Precompile:
    def __init__(self, exe, san=""):
        from . import pool
        e = pool.san_env(san if san != "asan" else "")
        e["GORACE"] = "exitcode=66 halt_on_error=1"
        r, w = os.pipe()
        self.err = open(os.path.join(build.scratch(), "pc-err-%d" % os.getpid()), "w+b")
        def pre():
            os.dup2(w, 3)
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err, env=e,
                                  pass_fds=[3] if w == 3 else [3, w], preexec_fn=pre)
        os.close(w)
        self.r = os.fdopen(r, "r")

    def run(self, data):
        return self.many([data])[0]

    def many(self, datas):
        """The replies when called in turn, then at once."""
        return self.ask(",".join(d.hex() for d in datas), len(datas))

    def ask(self, line, replies=1):
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        out = [self.r.readline() for _ in range(replies)]
        if not all(out):
            rc = self.p.wait()
            self.err.seek(0)
            raise Crash("exit %d: %s" % (rc, self.err.read().decode(errors="replace")[-3000:]))
        return [l.rstrip("\n") for l in out]
