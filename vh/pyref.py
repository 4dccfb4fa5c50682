"""The Python reference (pythonref/) in this process, with the stand-in for polyntt where the real one is missing."""
import contextlib, io, os, sys
from . import mon

sys.dont_write_bytecode = True
ROOT = os.path.join(mon.REPO, "pythonref")
for p in (os.path.join(mon.VERIF, "stubs"), ROOT):
    if p not in sys.path:
        sys.path.insert(0, p)

SINK = io.StringIO()


@contextlib.contextmanager
def quiet():
    """The reference prints its reasons for refusing."""
    SINK.seek(0)
    SINK.truncate()
    with contextlib.redirect_stdout(SINK):
        yield SINK


class Tape:
    """A source of random bytes that can be replayed and that records the reads."""

    def __init__(self, seed, limit=None):
        import random
        self.r, self.calls, self.log = random.Random(seed), [], b""

    def __call__(self, k):
        b = self.r.randbytes(k)
        self.calls.append(k)
        if len(self.log) < 4096:
            self.log += b
        return b


def call(f, *a, **k):
    """(value, None) or (None, exception)"""
    with quiet():
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e


def xof(name):
    if name == "SHAKE":
        from shake import SHAKE as X
    elif name == "KeccakPRNG":
        from keccak_prng import KeccakPRNG as X
    elif name == "KeccaXOF":
        from keccaxof import KeccaXOF as X
    else:
        from blake2s_prng import Blake2sPRNG as X
    return X
