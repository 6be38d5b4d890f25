"""Unit expressions: random trees, their algebra (independent of the code under test), and renderings.

Documented grammar: products bind tighter than quotients (everything after a division sign up to the
next one is in the denominator), quotients group to the left, `^n` binds tightest."""
from fractions import Fraction as F
import math
import units as un


class E:
    def __init__(self, kind, a=None, b=None, n=None):
        self.k, self.a, self.b, self.n = kind, a, b, n


def usp(sp):
    return E("u", sp)


def factors(e, n=1):
    """flatten to [(Sp or 10, exponent)]"""
    if e.k == "u":
        return [(e.a, n)]
    if e.k == "ten":
        return [(10, e.n * n)]
    if e.k == "one":
        return []
    if e.k == "pow":
        return factors(e.a, n * e.n)
    return factors(e.a, n) + factors(e.b, n if e.k == "mul" else -n)


def fdim(fs):
    d = [0] * 8
    for s, n in fs:
        if s != 10:
            for i in range(8):
                d[i] += s.u.dim[i] * n
    return tuple(d)


def log10(x):
    x = F(x)
    return (x.numerator.bit_length() - x.denominator.bit_length()) * math.log10(2)


def flog(fs):
    """(log10 of the magnitude, largest partial swing)"""
    t, sw = 0.0, 0.0
    for s, n in fs:
        l = n * (1 if s == 10 else log10(s.value))
        t += l
        sw += abs(l)
    return t, sw


def fmag(fs):
    v = F(1)
    for s, n in fs:
        v *= (F(10) if s == 10 else s.value) ** n
    return v


def fscale(fs):
    """exponents of (2, 3, 5, pi) of the unit's magnitude, None if it is no product of their powers"""
    m = fmag(fs)
    pi = sum(n * s.u.pi for s, n in fs if s != 10)
    m /= un.PI ** pi
    out = []
    for b in (2, 3, 5):
        e = 0
        while m.numerator % b == 0:
            m /= b; e += 1
        while m.denominator % b == 0:
            m *= b; e -= 1
        out.append(e)
    return (*out, pi) if m == 1 else None


def loose(fs):
    return sum(un.LOOSE.get(s.u.name, 0) * abs(n) for s, n in fs if s != 10)


def all_storage(fs):
    return all(s == 10 or s.u.storage for s, n in fs)


def rand(r, pick, depth=3, top=True):
    c = r.random()
    if depth == 0 or c < 0.25:
        e = usp(pick())
        if r.random() < 0.35:
            e = E("pow", e, n=r.choice([2, 3, 2, -1, -2, 4, 1]))
        return e
    if c < 0.33:
        return E("ten", n=r.choice([1, 2, 3, -3, 4, -1, 6, -9]))
    if c < 0.38 and top:
        return E("div", E("one"), rand(r, pick, depth - 1, False))
    if c < 0.65:
        return E("mul", rand(r, pick, depth - 1, False), rand(r, pick, depth - 1, False))
    if c < 0.9:
        return E("div", rand(r, pick, depth - 1, False), rand(r, pick, depth - 1, False))
    return E("pow", rand(r, pick, depth - 1, False), n=r.choice([2, 3, -1, -2]))


PREC = {"div": 0, "mul": 1, "pow": 2, "u": 3, "ten": 2, "one": 3}


def render(r, e, style, paren=0.1):
    """style 'trad' (* ^), 'compact' (. and implicit exponents), 'mixed'"""
    def sp():
        return r.choice(["", " "]) if style != "compact" else ""

    def go(e, need, force_atom=False):
        k = e.k
        if k == "u":
            s = e.a.text
            p = 3
        elif k == "one":
            s, p = "1", 3
        elif k == "ten":
            if e.n == 1 and r.random() < .5:
                s, p = "10", 3
            else:
                s, p = f"10^{e.n}", 2
        elif k == "pow":
            imp = style == "compact" or (style == "mixed" and r.random() < .5)
            if e.a.k == "u" and imp and e.n > 0:
                s, p = f"{e.a.a.text}{e.n}", 2     # keep parentheses before a further ^
            else:
                s, p = f"{go(e.a, 3)}^{e.n}", 2
        elif k == "mul":
            dot = style == "compact" or (style == "mixed" and r.random() < .5)
            l, rr = go(e.a, 1), go(e.b, 2 if r.random() < .7 else 1)
            op = "." if dot else f"{sp()}*{sp()}"
            if dot and l[-1].isdigit() and l[-1] != " " and not l[-1:] == ")" and not _ident_tail(l):
                op = " . "      # '2.s' would be fine, but '10.' is a float token
            s, p = l + op + rr, 1
        else:
            l, rr = go(e.a, 0), go(e.b, 1)
            s, p = l + f"{sp()}/{sp()}" + rr, 0
        if p < need or r.random() < paren * (k != "one"):
            return "(" + s + ")"
        return s
    return go(e, 0)


def _ident_tail(s):
    """does s end in an identifier such as m2 (rather than a number)?"""
    i = len(s)
    while i and (s[i - 1].isalnum() or s[i - 1] == "_"):
        i -= 1
    return not s[i:][:1].isdigit()
