"""The contracts under /repo/src, run by the Solidity translator in vh/sol.

Every call goes to code translated from the tree's current sources; contract calls go through ABI encoding, a fresh
EVM memory, and ABI decoding, as on chain. Free functions are called in a fresh memory.
"""
import functools, glob, os, sys
from . import mon
from .sol import gen, rt
from .sol.parse import SolError  # noqa: F401

sys.setrecursionlimit(20000)
U256 = ("uint", 256)
ARR = ("arr", U256, None)
BYTES, STRING, ADDR, BOOL, B32, B4 = ("bytes",), ("string",), ("addr",), ("bool",), ("fb", 32), ("fb", 4)
NAMES = {"uint256": U256, "uint256[]": ARR, "bytes": BYTES, "string": STRING, "address": ADDR, "bool": BOOL,
         "bytes32": B32, "bytes4": B4}


@functools.lru_cache(None)
def unit():
    u = gen.Unit(mon.REPO, os.path.join(mon.VERIF, "stubs", "sol"))
    for f in sorted(glob.glob(os.path.join(mon.REPO, "src", "*.sol"))):
        u.load(f)
    return u


def file(name):
    return unit().load(os.path.join(mon.REPO, name))


class Chain:
    """A world of accounts with instances of the contracts."""

    def __init__(self):
        self.w = rt.World(unit())

    def deploy(self, name, *args):
        return self.w.deploy(name, list(args))

    def etch(self, at, code):
        """Put this code (data to be read) at this address."""
        self.w.acc[at] = rt.Account(code)

    def code(self, at):
        x = self.w.acc.get(at)
        return x.code if x else b""

    def call(self, to, sig, *args, rets="", data=None, sender=0xCA11):
        """(True, values) or (False, revert data). sig: 'verify(bytes,bytes,uint256[],uint256[])'"""
        ts = [NAMES[t] for t in sig[sig.index("(") + 1:-1].split(",") if t]
        if data is None:
            data = rt.selector(sig) + rt.enc(ts, list(args))
        ok, ret = self.w.call(sender, to, data)
        if not ok:
            return False, ret
        if ret == b"" and rets:
            return False, b"no return data"
        v = rt.dec([NAMES[t] for t in rets.split(",") if t], ret)
        return True, v[0] if len(v) == 1 else v


def why(data):
    if data[:4] == rt.ERROR:
        return rt.dec([STRING], data[4:])[0].decode("latin1")
    if data[:4] == rt.PANIC:
        return "panic 0x%x" % int.from_bytes(data[4:36], "big")
    return data.hex()[:80]


@functools.lru_cache(None)
def _free(path, name, n):
    return unit().free(file(path), name, n)


def have(path, name):
    s = unit().sym(file(path), name)
    return s is not None and s[0] == "fns"


def free(path, name, *args, chain=None):
    """A free function on deep values, in a fresh memory: (True, value(s)) or (False, revert data)"""
    fn, ps, rs = _free(path, name, len(args))
    w = chain.w if chain else rt.World(unit())
    w.acc.setdefault(0xF0, rt.Account(b"\0"))
    ctx = rt.Ctx(w, 0xF0, 0xCA11)
    try:
        at = [ctx.put(t, a) for t, a in zip(ps, args)]
        ctx.put(BYTES, b"\xff" * 512)  # what lies behind the arguments is not zero
        r = fn(ctx, *at)
        r = (r,) if len(rs) == 1 else r
        out = [ctx.deep(t, l, v) for (t, l), v in zip(rs, r)] if rs else []
    except rt.Revert as e:
        return False, e.data
    return True, out[0] if len(out) == 1 else out


def compact(p):
    """512 values -> 32 words, as the contracts expect them"""
    return [sum((v & 0xffff) << (16 * j) for j, v in enumerate(p[i:i + 16])) for i in range(0, len(p), 16)]


def expand(ws):
    return [(x >> (16 * j)) & 0xffff for x in ws for j in range(16)]


def hits():
    return {n: c for n, c in zip(unit().Hname, unit().H)}
