"""Falcon key pairs as (f, g, F, G), for any degree, without using the code under test.
Degree 512 and 1024: Python reference's published keys (scripts/sign_KAT.py data) multiplied by random units x^k and
automorphisms, which keep the NTRU equation and the norms. Smaller degrees likewise."""
import functools
from . import ref


@functools.lru_cache(None)
def base(n):
    from . import pyref  # noqa: F401  (sets the path)
    from scripts.sign_KAT import sign_KAT
    return [(list(D["f"]), list(D["g"]), list(D["F"]), list(D["G"])) for D in sign_KAT[n]]


def auto(p, a):
    """p(x^a), a odd."""
    n = len(p)
    o = [0] * n
    for i, v in enumerate(p):
        e = i * a % (2 * n)
        if e < n:
            o[e] = v
        else:
            o[e - n] = -v
    return o


def shift(p, k):
    n = len(p)
    o = [0] * n
    for i, v in enumerate(p):
        e = (i + k) % (2 * n)
        if e < n:
            o[e] = v
        else:
            o[e - n] = -v
    return o


def polys(n, rng):
    """A key: the published one under a random automorphism, f and g times x^j, F and G times x^-j."""
    f, g, F, G = rng.choice(base(n))
    a = 2 * rng.randrange(n) + 1
    j = rng.randrange(2 * n)
    f, g, F, G = (auto(p, a) for p in (f, g, F, G))
    f, g, F, G = shift(f, j), shift(g, j), shift(F, -j), shift(G, -j)
    return [f, g, F, G]


def check(p):
    f, g, F, G = p
    a, b = ref.mulz(f, G), ref.mulz(g, F)
    return [x - y for x, y in zip(a, b)] == [12289] + [0] * (len(f) - 1)
