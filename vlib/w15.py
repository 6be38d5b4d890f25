"""W15: Display and Debug text of quantities, read by an independent reader of printed units."""
import math, re
from fractions import Fraction as F
import common, gen, units as un, expr as ex, printed
from common import Project, Case

PRE = """use whippyunits::quantity::*; use probe::*; #[derive(Clone,PartialEq)] struct BrA;
fn p<Q: std::fmt::Display + std::fmt::Debug>(id: &str, i: usize, q: Q) { s(id,&format!("d{i}"),||format!("{q}")); s(id,&format!("g{i}"),||format!("{q:?}")); }
"""
SIG = 5


def value_ok(txt, v, t):
    """the printed number is v to five significant digits"""
    try:
        g = float(txt)
    except ValueError:
        return False
    if math.isnan(v):
        return txt == "NaN"
    if math.isinf(v):
        return g == v
    if v == 0:
        return g == 0
    if not re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", txt):
        return False
    return abs(F(txt) - F(v)) <= F(51, 1000000) * abs(F(v)) or abs(F(v)) < F(1, 10**300) and abs(F(txt) - F(v)) < F(1, 10**305)


def scale_of(m, pi):
    m /= un.PI ** pi
    out = []
    for b in (2, 3, 5):
        e = 0
        while m.numerator % b == 0:
            m /= b; e += 1
        while m.denominator % b == 0:
            m *= b; e -= 1
        out.append(e)
    return (*out, pi) if m == 1 else None


def units_pool(r, n):
    """(dim, scale): catalogue units under every prefix, powers and pairs of them, arbitrary vectors"""
    sps = [s for s in un.spellings() if s.u.storage and not s.u.affine]
    out = []
    for s in sps:
        out.append((s.u.dim if s.u.name != "lumen" else un.dim(L=-2, J=1), scale_of(s.mag * un.PI ** s.u.pi, s.u.pi)))
    for i in range(8):
        for e in (1, -1, 2, -2, 3, -3, 4, -4, 5, -7):
            d = [0] * 8; d[i] = e
            for sc in [(0, 0, 0, 0), (3, 0, 3, 0), (-3, 0, -3, 0), (4, 0, 4, 0), (2, 1, 1, 0), (0, -2, 1, 0), (-2, -2, -1, 1), (1, 1, 0, 0), gen.rscale(r)]:
                out.append((tuple(d), sc))
    named = list(dict.fromkeys([u.dim for u in un.CATALOGUE] + list(printed.DIMNAME.values())))
    for d in named:
        for _ in range(6):
            p = r.choice([1, 2, 3, -3, 5, 6, -6, 7, -9, 12, -1, -2, 31, -40])
            out.append((d, r.choice([(p, 0, p, 0), gen.rscale(r), (2, 1, 1, 0), (4, 2, 2, 0), (0, -2, 1, 0), (-2, -2, -1, 1)])))
    while len(out) < n:
        c = r.random()
        if c < .5:
            fs = [(r.choice(sps), r.choice([1, 1, 1, 2, -1, -2, -1, 3])) for _ in range(r.choice([1, 2, 2, 3]))]
            fs = [(s, k) for s, k in fs if s.u.name != "lumen"]
            if not fs:
                continue
            out.append((ex.fdim(fs), scale_of(ex.fmag(fs), sum(k * s.u.pi for s, k in fs))))
        else:
            d = [0] * 8
            for _ in range(r.choice([1, 2, 2, 3, 4])):
                d[r.randrange(8)] = r.choice([1, 1, -1, 2, -2, 3, -5, 12])
            out.append((tuple(d), r.choice([(0, 0, 0, 0), gen.rscale(r), r.choice(out)[1]])))
    return [(d, s) for d, s in dict.fromkeys(out) if s is not None and abs(ex.log10(un.scale_value(s))) < 90]


def judge_unit(chk, text, names, d, sc, name, case):
    """does the unit text denote exactly (d, sc)?"""
    x = printed.read(text, names)
    if x is None:
        chk.violate(f"unread:{name}", f"{name} is printed in {text!r}, which names no unit", case); return None
    v = un.scale_value(sc)
    if x[0] != d:
        chk.violate(f"dim:{name}", f"{name} is printed in {text!r}, of dimension {x[0]}", case)
    elif x[2] == 0 and x[1] != v or abs(x[1] - v) > x[2] * v:
        chk.violate(f"scale:{name}", f"{name} is printed in {text!r} = {float(x[1])}, but its unit is {float(v)}", case)
    else:
        return x
    return None


def run(chk):
    chk.rule = ("(dimension vector, scale, storage type, brand) x values printed with Display and Debug; the printed unit text is read back by an independent reader; "
                "distinct by (dimension, scale); units: every storage unit with every prefix, powers 1..7 of each base, named dimensions in odd scales, products, arbitrary")
    chk.assumptions = ["five significant digits for values, three for a numeric scale factor (as printed)", "a prefix before a symbol binds tighter than an exponent; before a parenthesis it scales the whole",
                       "magnitude of the unit within 10^+-90"]
    r = chk.rng
    pool = units_pool(r, 2600 if not chk.thorough else 14000)
    cases = []
    for d, sc in pool:
        t = r.choice(["f64"] * 6 + ["f32"] + list(un.INTS)); br = r.choice(["()", "()", "()", "BrA"])
        vs = gen.vals(r, t, 3)
        vs = r.sample(vs, min(len(vs), 4 if not chk.thorough else 8)) + [1.0 if t in un.FLOATS else 1]
        A = un.qtype(sc, d, t, br)
        body = f"for (i,v) in [{','.join(un.lit(t, v) for v in vs)}].into_iter().enumerate() {{ p(id,i,<{A}>::new(v)); }}"
        cases.append(Case(f"c{len(cases)}", body, (d, sc, t, br, vs)))
    p = Project("W15", prelude=PRE)
    p.spread(cases, 16)
    p.build()
    chk.log(f"{len(cases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    bytext = {}
    for c in cases:
        d, sc, t, br, vs = c.meta
        name = f"{d} x {sc}"
        if c.id in p.rejected or c.id in p.crashed:
            chk.violate("lost:" + name, f"{p.rejected.get(c.id, [['', '']])[0][1][:200]} {p.crashed.get(c.id)}", c.body); continue
        o = obs.get(c.id, {})
        seen = set()
        for i, v in enumerate(vs):
            for k in "dg":
                x = o.get(f"{k}{i}")
                chk.saw()
                how = "Display" if k == "d" else "Debug"
                if x is None or x[0] != "ok":
                    chk.violate(f"panic:{name}:{t}:{v}", f"{how} of {v} {t} in {name}: {x}", c.body); continue
                m = re.fullmatch(r"(\S+) Quantity<(.*)>", x[1], re.S)
                if not m:
                    chk.violate(f"form:{name}", f"{how} prints {x[1]!r}", c.body); continue
                if not value_ok(m.group(1), float(v) if t in un.FLOATS else v, t):
                    chk.violate(f"value:{name}:{t}:{v}", f"{how} shows the stored value {v!r} as {m.group(1)}", c.body)
                inner = m.group(2)
                if br != "()":
                    if not re.search(r", [\w:]*\bBrA$", inner):
                        chk.violate(f"brand:{name}", f"{how} prints {x[1]!r}, brand is {br}", c.body); continue
                    inner = inner[:inner.rindex(", ")]
                if not inner.endswith(", " + t):
                    chk.violate(f"type:{name}", f"{how} prints {x[1]!r}, storage type is {t}", c.body); continue
                inner = inner[:-len(t) - 2]
                if (k, inner) in seen:
                    continue
                seen.add((k, inner))
                if k == "d":
                    u = judge_unit(chk, inner, False, d, sc, name, c.body)
                    if u and u[2] == 0:
                        if bytext.setdefault(inner, (d, sc)) != (d, sc):
                            chk.violate(f"same:{name}", f"{name} and {bytext[inner]} are both printed as {inner!r}", c.body)
                    if len(chk.samples) < 10 and r.random() < .01:
                        chk.samples.append({"unit": name, "value": str(v), "observed": x[1]})
                    continue
                m = re.fullmatch(r"(.*?)( \((?P<n>[A-Z][A-Za-z ]*|dimensionless)\))?( \[(?P<s>[^\]a-z]*)\])?( \[(?P<d>[^\]]*)\])?", inner)
                n = m and m.group("n")
                if n and printed.DIMNAME.get(n) != d:
                    chk.violate(f"name:{name}", f"Debug calls {d} {n!r}: {x[1]!r}", c.body)
                if printed.brackets(m.group("s") or "", printed.SCALE_N) != sc or printed.brackets(m.group("d") or "", printed.DIM_N) != d:
                    chk.violate(f"brackets:{name}", f"Debug of {name} prints {x[1]!r}", c.body)
                judge_unit(chk, m.group(1), True, d, sc, name + " (Debug)", c.body)
        chk.distinct.add(name)
    chk.coverage["exact_unit_texts"] = len(bytext)
    return chk.finish(min_events=10000)
