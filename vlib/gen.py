"""Random material shared by several checks."""
from fractions import Fraction as F
import math
import units as un

NUMT = ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
SIGNED = [t for t in NUMT if t[0] in "fi"]
ALLDIMS = sorted({u.dim for u in un.CATALOGUE})


def rdim(r, hi=9):
    c = r.random()
    if c < 0.35:
        return r.choice(ALLDIMS)
    if c < 0.45:
        return (0,) * 8
    return tuple(r.choice([0, 0, 0, 1, -1, 2, -2, r.randint(-hi, hi)]) for _ in range(8))


def rscale(r, hi=30):
    c = r.random()
    if c < 0.3:
        p = r.choice([-9, -6, -3, -2, -1, 0, 1, 2, 3, 6, 9])
        return (p, 0, p, 0)
    if c < 0.5:
        return r.choice([(0, 0, 0, 0), (2, 1, 1, 0), (4, 2, 2, 0), (7, 3, 2, 0), (8, 4, 3, 0), (0, -2, 1, 0),
                         (-2, -2, -1, 1), (-3, 0, -2, 1), (1, 0, 0, 1), (-4, -3, -2, 1), (7, 2, 5, 0)])
    return (r.randint(-hi, hi), r.randint(-hi // 2, hi // 2), r.randint(-hi, hi), r.choice([0, 0, 0, 1, -1, 2, -2]))


def fvals(r, t, n=12):
    mant = 53 if t == "f64" else 24
    big = 1.7976931348623157e308 if t == "f64" else 3.4028234663852886e38
    tiny = 5e-324 if t == "f64" else 1.401298464324817e-45
    base = [0.0, -0.0, 1.0, -1.0, 0.5, 3.0, 0.1, 1e-3, 12345.678, -2.5, 1e15, -7.25e-9, math.inf, -math.inf,
            math.nan, big, -big, tiny, 9007199254740993.0, 16777217.0]
    if t == "f32":
        base = [un.to_f32(x) if not math.isnan(x) else x for x in base]
    out = list(base)
    while len(out) < len(base) + n:
        x = math.ldexp(r.random() + 0.5, r.randint(-60, 60)) * r.choice([1, -1])
        if r.random() < .3:
            x = float(r.randint(-10**6, 10**6))
        out.append(un.to_f32(x) if t == "f32" else x)
    return out


def ivals(r, t, n=12, near=()):
    lo, hi = un.INTS[t]
    s = {0, 1, 2, 3, 5, 7, 10, 100, hi, hi - 1, lo, lo + 1, hi // 2, lo // 2, hi // 3, -1, -2, -3, -7, -10, -100}
    for x in near:
        for d in (-2, -1, 0, 1, 2):
            s.add(x + d); s.add(-x + d)
    for _ in range(n):
        b = r.randint(1, max(1, hi.bit_length()))
        v = r.getrandbits(b)
        s.add(v); s.add(-v)
    return sorted(v for v in s if lo <= v <= hi)


def vals(r, t, n=12):
    return fvals(r, t, n) if t in un.FLOATS else ivals(r, t, n)
