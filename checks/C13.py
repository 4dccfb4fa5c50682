"""C13: the emulated floating point is IEEE-754 double, round to nearest even, on the documented range."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import decimal, math, struct
from vh import build, pool
from vh.cfalcon import Lib, d2u, u2d

decimal.getcontext().prec = 60
MINN = 2.0 ** -1022


def operand(rng, emax):
    k = rng.random()
    if k < .05:
        return rng.choice([0.0, -0.0])
    e = rng.randint(-emax, emax)
    if k < .25:
        m = rng.choice([0, 1, 2, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, (1 << 51) - 1, (1 << 51) + 1, 1 << 26, (1 << 26) - 1])
    elif k < .45:
        m = 0
        for _ in range(rng.randrange(1, 5)):
            m |= 1 << rng.randrange(52)
    else:
        m = rng.getrandbits(52)
    return u2d((rng.getrandbits(1) << 63) | ((e + 1023) << 52) | m)


def near(rng, x):
    """Something whose sum/difference/quotient with x is delicate."""
    k = rng.randrange(6)
    u = d2u(x)
    if k == 0:
        return u2d(u ^ (1 << 63))
    if k == 1:
        return u2d((u + rng.choice([-1, 1, 2, -2])) & (2 ** 64 - 1)) if x else x
    if k == 2:
        return u2d(((u + rng.choice([-1, 0, 1])) & (2 ** 64 - 1)) ^ (1 << 63)) if x else x
    s = rng.choice([52, 53, 54, 55, 56, 59, 60, 61, 62, 63, 64, 65, 51, 1, 2, 3])
    y = math.ldexp(x, rng.choice([-s, s]))
    if k == 3:
        return y
    if k == 4:
        return -y
    return y * rng.choice([1.0, 1.5, 1 + 2 ** -52, 2 - 2 ** -52, -1.5])


def fine(x):
    return x == 0 or (MINN * 4 <= abs(x) < 2.0 ** 1000)


def same(a, b, strict=False):
    if strict:                      # the sign of a zero is documented for these operations and reaches fpr_floor
        return a == b
    return a == b or (a << 1) & (2 ** 64 - 1) == (b << 1) & (2 ** 64 - 1) == 0


def arith(w, n, part):
    L = Lib("shake")
    c = L.c
    rng = w.rng
    two = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y}
    for i in range(n):
        x = operand(rng, rng.choice([3, 60, 300, 490]))
        y = near(rng, x) if rng.random() < .4 else operand(rng, rng.choice([3, 60, 300, 490]))
        if not fine(x) or not fine(y):
            continue
        xu, yu = d2u(x), d2u(y)
        for op, f in two.items():
            if op == "div" and y == 0:
                continue
            e = f(x, y)
            if not fine(e):
                continue
            r = getattr(c, "w_fpr_" + op)(xu, yu)
            w.ev("op_" + op)
            if not same(r, d2u(e), op != "div"):
                w.violation(op, "%s(%r, %r) = %r, IEEE-754 says %r" % (op, x, y, u2d(r), e), {"op": op, "x": hex(xu), "y": hex(yu)})
        for op, f in (("neg", lambda v: -v), ("half", lambda v: v / 2), ("double", lambda v: v * 2), ("sqr", lambda v: v * v),
                      ("inv", lambda v: 1 / v if v else None), ("sqrt", lambda v: math.sqrt(v) if v >= 0 else None)):
            e = f(x)
            if e is None or not fine(e):
                continue
            r = getattr(c, "w_fpr_" + op)(xu)
            w.ev("op_" + op)
            if not same(r, d2u(e)):
                w.violation(op, "%s(%r) = %r, IEEE-754 says %r" % (op, x, u2d(r), e), {"op": op, "x": hex(xu)})
        r = c.w_fpr_lt(xu, yu)
        w.ev("op_lt")
        if bool(r) != (x < y) and not (x == 0 and y == 0):
            w.violation("lt", "lt(%r, %r) = %d" % (x, y, r), {"x": hex(xu), "y": hex(yu)})
        w.evaluations += 1
        if i % 8 == 0:
            w.case((xu, yu))
            w.evaluations -= 1
    w.sample({"x": hex(xu), "y": hex(yu)})


def small(w, n, part):
    """Results around 2^-1022: normal ones are rounded as usual, smaller ones become a zero of the same sign."""
    L = Lib("shake")
    c = L.c
    rng = w.rng
    F = __import__("fractions").Fraction
    for i in range(n):
        op = rng.choice(["mul", "div", "add", "sub"])
        e1 = rng.randint(-1000, -20)
        m = [rng.choice([0, 1, (1 << 52) - 1, rng.getrandbits(52)]) for _ in range(2)]
        s = [rng.getrandbits(1) << 63 for _ in range(2)]
        if op in ("add", "sub"):
            e1 = -1022 + rng.randint(1, 6)
            e2 = e1 + rng.choice([0, 0, 0, 1, -1]) if e1 > -1021 else e1
        elif op == "mul":
            e2 = -1022 - e1 + rng.randint(-4, 3)
        else:
            e1 = rng.randint(-1000, -20)
            e2 = e1 + 1022 + rng.randint(-3, 4)
        if not -1022 <= e1 < 1000 or not -1022 <= e2 < 1000:
            continue
        xu, yu = (s[k] | ((e + 1023) << 52) | m[k] for k, e in enumerate((e1, e2)))
        x, y = F(u2d(xu)), F(u2d(yu))
        e = {"mul": lambda: x * y, "div": lambda: x / y, "add": lambda: x + y, "sub": lambda: x - y}[op]()
        r = getattr(c, "w_fpr_" + op)(xu, yu)
        w.ev("small_" + op)
        if abs(e) >= F(MINN):
            ok = r == d2u(float(e))
            w.ev("small_kept")
        elif abs(e) > F(MINN) * (1 - F(1, 2 ** 50)):
            continue
        elif e == 0:
            ok = op == "div" or r == 0
        else:
            ok = r == (1 << 63 if e < 0 else 0)
            w.ev("small_flushed")
        if not ok:
            w.violation(op, "%s(%r, %r) = %r at the edge of the range" % (op, u2d(xu), u2d(yu), u2d(r)), {"op": op, "x": hex(xu), "y": hex(yu)})
        w.evaluations += 1


def ints(w, n, part):
    L = Lib("shake")
    c = L.c
    rng = w.rng
    for i in range(n):
        b = rng.randrange(1, 64)
        v = rng.getrandbits(b)
        k = rng.randrange(4)
        if k == 0:
            v = rng.choice([0, 1, 2, 3, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 54 + 2, 2 ** 54 + 6, 2 ** 63 - 1, 2 ** 62, 2 ** 63 - 512, 2 ** 63 - 513])
        elif k == 1 and b > 54:
            v = (rng.getrandbits(53) << (b - 53)) | rng.choice([0, 1 << (b - 54), (1 << (b - 54)) + 1, (1 << (b - 54)) - 1])
            v &= 2 ** 63 - 1
        if rng.random() < .5:
            v = -v
        r = c.w_fpr_of(v)
        w.ev("of")
        if not same(r, d2u(float(v))):
            w.violation("of", "of(%d) = %r" % (v, u2d(r)), {"v": v})
        sc = rng.choice([0, -1, 1, -52, -63, 10, rng.randint(-200, 200)])
        r = c.w_fpr_scaled(v, sc)
        w.ev("scaled")
        if not same(r, d2u(math.ldexp(float(v), sc))):
            w.violation("scaled", "scaled(%d, %d) = %r" % (v, sc, u2d(r)), {"v": v, "sc": sc})
        # to integers
        e = rng.choice([0, 1, 5, 20, 40, 51, 52, 53, 60, 62, -1, -2, -60, rng.randint(-70, 62)])
        x = math.ldexp(1 + rng.random(), e)
        k = rng.random()
        if k < .35:
            x = float(rng.getrandbits(rng.randrange(1, 52))) + rng.choice([0.5, 0.0, 0.25, 0.75, 2 ** -20, 1 - 2 ** -20, .5 + 2 ** -30, .5 - 2 ** -30])
            if rng.random() < .4:
                for _ in range(rng.randrange(1, 3)):
                    x = math.nextafter(x, rng.choice([0.0, 1e300]))
        if rng.random() < .5:
            x = -x
        if abs(x) >= 2.0 ** 62.9:
            continue
        u = d2u(x)
        for op, exp in (("rint", round(x)), ("floor", math.floor(x)), ("trunc", math.trunc(x))):
            r = getattr(c, "w_fpr_" + op)(u)
            w.ev(op)
            if op == "floor" and u == 1 << 63 and r in (0, -1):
                continue            # documented edge: -0 may floor to -1
            if r != exp:
                w.violation(op, "%s(%r) = %d, not %d" % (op, x, r, exp), {"op": op, "x": hex(u)})
        w.evaluations += 1
        if i % 8 == 0:
            w.case((v, u))
            w.evaluations -= 1


def expm(w, n, part):
    """2^63*ccs*exp(-x) for 0 <= x < ln 2 to the documented precision (about 2^-50 relative)."""
    L = Lib("shake")
    rng = w.rng
    D = decimal.Decimal
    ln2 = math.log(2)
    worst = 0
    for i in range(n):
        x = rng.choice([0.0, 2.0 ** -60, ln2 * (1 - 2 ** -52), rng.random() * ln2, rng.random() * ln2, rng.random() * 1e-6])
        ccs = rng.choice([1 - 2.0 ** -53, 0.5, 0.7, rng.random() or .5, 0.6 + rng.random() * .4, 1e-3])
        g = L.c.w_fpr_expm_p63(d2u(x), d2u(ccs))
        e = D(2) ** 63 * D(ccs) * (-D(x)).exp()
        err = abs(D(g) - e) / D(2) ** 63
        worst = max(worst, float(err))
        w.ev("expm")
        w.case((d2u(x), d2u(ccs)))
        if err > D(2) ** -45:
            w.violation("expm_p63", "expm_p63(%r, %r) is off by %.3g" % (x, ccs, float(err)), {"x": x, "ccs": ccs})
    w.sample({"worst_expm_error": worst})


def plan(R):
    build.prepare("shake")
    q = R.quick
    return [("arith", dict(n=60000 if q else 3000000, part=p)) for p in range(5)] + \
           [("ints", dict(n=100000 if q else 4000000, part=p)) for p in range(2)] + [("expm", dict(n=15000 if q else 300000, part=0))] + \
           [("small", dict(n=60000 if q else 2000000, part=0))]


if __name__ == "__main__":
    pool.check("C13", "operand bit patterns (sampled one in eight)", {"arith": arith, "ints": ints, "expm": expm, "small": small}, plan,
               {"op_add": 100000, "op_mul": 50000, "op_div": 50000, "op_sqrt": 30000, "rint": 50000, "expm": 5000, "of": 50000, "op_lt": 100000, "small_flushed": 3000, "small_kept": 3000})
