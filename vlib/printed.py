"""Independent reader of printed unit text (Display: symbols, Debug: names), e.g. `kHz`, `m(m²)`, `(60.0)(m·s⁻¹)`, `10⁴ g`, `()`.
Returns (dim, magnitude as Fraction, relative uncertainty of a printed decimal factor) or None.
A prefix binds tighter than an exponent, as everywhere in metric notation."""
import re
from fractions import Fraction as F
import units as un

SUP = {c: str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
SUP["⁻"] = "-"; SUP["⁺"] = "+"
SUPC = "".join(SUP)
PRE_S = {s: e for n, s, e in un.PREFIXES}
PRE_S["μ"] = -6; PRE_S["u"] = -6
PRE_N = {n: e for n, s, e in un.PREFIXES}
SYM = {s.text: s for s in un.spellings(names=False)}
NAM = {}
for _s in un.spellings(names=True):
    if _s.kind in ("name", "prefixed-name") or _s.text == _s.u.name:
        NAM[_s.text] = _s
for _u in un.CATALOGUE:
    NAM.setdefault(_u.name, un.Sp(_u.name, _u, 0, "name"))


def sup(t):
    if not t:
        return 1
    try:
        return int("".join(SUP[c] for c in t))
    except (KeyError, ValueError):
        return None


def term(t, names):
    m = re.fullmatch(rf"(.*?[^{SUPC}])([{SUPC}]*)", t, re.S)
    if not m:
        return None
    s = (NAM if names else SYM).get(m.group(1))
    n = sup(m.group(2))
    if s is None or n is None or s.u.affine:
        return None
    return tuple(x * n for x in s.u.dim), s.value ** n


def comp(t, names):
    d, v = (0,) * 8, F(1)
    for p in t.split("·"):
        x = term(p, names)
        if x is None:
            return None
        d = tuple(a + b for a, b in zip(d, x[0])); v *= x[1]
    return d, v


def read(t, names=False):
    k, unc = F(1), F(0)
    m = re.match(r"\(([0-9][0-9.]*|inf|NaN)\)", t)
    if m:
        if not m.group(1)[0].isdigit():
            return None
        k = F(m.group(1))
        if not k:
            return None
        unc = F(1, 190)            # three significant digits
        t = t[m.end():]
    else:
        m = re.match(rf"10([{SUPC}]+) ", t)
        if m:
            n = sup(m.group(1))
            if n is None:
                return None
            k = F(10) ** n
            t = t[m.end():]
    m = re.fullmatch(r"([^()]*)\(([^()]*)\)", t)
    if m:
        pre = PRE_N if names else PRE_S
        if m.group(1):
            if m.group(1) not in pre or k != 1:
                return None
            k = F(10) ** pre[m.group(1)]
        x = ((0,) * 8, F(1)) if m.group(2) == "" else comp(m.group(2), names)
    else:
        x = comp(t, names) if "·" not in t else None
    if x is None:
        return None
    return x[0], x[1] * k, unc


def brackets(t, names):
    """'2³, 5⁻³' -> exponents in order of names"""
    out = [0] * len(names)
    if t == "":
        return tuple(out)
    for p in t.split(", "):
        m = re.fullmatch(rf"(.*?[^{SUPC}])([{SUPC}]+)", p)
        if not m or m.group(1) not in names or out[names.index(m.group(1))]:
            return None
        out[names.index(m.group(1))] = sup(m.group(2))
    return tuple(out)


SCALE_N = ["2", "3", "5", "π"]
DIM_N = ["mass", "length", "time", "current", "temperature", "amount", "luminosity", "angle"]
DIMNAME = {"Mass": (1, 0, 0, 0, 0, 0, 0, 0), "Length": (0, 1, 0, 0, 0, 0, 0, 0), "Time": (0, 0, 1, 0, 0, 0, 0, 0), "Current": (0, 0, 0, 1, 0, 0, 0, 0),
           "Temperature": (0, 0, 0, 0, 1, 0, 0, 0), "Amount": (0, 0, 0, 0, 0, 1, 0, 0), "Luminosity": (0, 0, 0, 0, 0, 0, 1, 0), "Angle": (0, 0, 0, 0, 0, 0, 0, 1),
           "Area": un.dim(L=2), "Volume": un.dim(L=3), "Frequency": un.dim(T=-1), "Force": un.dim(M=1, L=1, T=-2), "Energy": un.ENERGY, "Power": un.POWER,
           "Pressure": un.PRES, "Electric Charge": un.dim(T=1, I=1), "Electric Potential": un.dim(M=1, L=2, T=-3, I=-1),
           "Capacitance": un.dim(M=-1, L=-2, T=4, I=2), "Electric Resistance": un.dim(M=1, L=2, T=-3, I=-2),
           "Electric Conductance": un.dim(M=-1, L=-2, T=3, I=2), "Inductance": un.dim(M=1, L=2, T=-2, I=-2), "Magnetic Field": un.dim(M=1, T=-2, I=-1),
           "Magnetic Flux": un.dim(M=1, L=2, T=-2, I=-1), "Illuminance": un.dim(L=-2, J=1), "Volume Mass Density": un.dim(M=1, L=-3),
           "Linear Mass Density": un.dim(M=1, L=-1), "Dynamic Viscosity": un.dim(M=1, L=-1, T=-1), "Kinematic Viscosity": un.dim(L=2, T=-1),
           "dimensionless": (0,) * 8}
