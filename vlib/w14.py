"""W14: `.fmt(unit)`: the printed number, parsed back, is the quantity in those units; anything else is an error text."""
import json, math, re
from decimal import Decimal
from fractions import Fraction as F
import common, gen, units as un, expr as ex
from common import Project, Case, rs_str

PRE = """use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity}; use probe::*;
#[derive(Clone,PartialEq)] struct BrA;
"""
INTO_F64 = ["f64", "f32", "i8", "i16", "i32", "u8", "u16", "u32"]
BAD = ["xyz", "kkm", "m^", "m**2", "(m", "m m", "2m", "", " ", "m/2", "m^99999", "%", "()", "kft", "metre", "m·s", "µ", "é", "m+s", "m^2^2", "(" * 300 + "m",
       "m^1.5", "10^99999", "[m]", "'", '"', "m\u0000", "1e5", "5"]


def run(chk):
    chk.rule = ("(quantity type, value, requested unit text, precision); half of the requests are convertible, the rest have another dimension or are "
                "malformed; distinct by (type, unit text)")
    chk.assumptions = ["storage types convertible to f64", "1e-12 relative on the converted number plus half a unit of the last requested digit",
                       "f64 conversion of the value before scaling (integers up to 32 bits are exact)"]
    r = chk.rng
    sps = [s for s in un.spellings(names=True) if s.u.name != "lumen" and s.text not in ("as",)]
    bydim = {}
    for s in sps:
        bydim.setdefault(s.u.dim, []).append(s)
    cases = []
    ntypes = 700 if not chk.thorough else 2500
    for ci in range(ntypes):
        t = r.choice(INTO_F64 + ["f64"] * 5); br = r.choice(["()", "()", "()", "BrA"])
        c = r.random()
        if c < .6:
            d = r.choice(list(bydim)); fs = [(r.choice(bydim[d]), 1)]
        else:
            fs = [(r.choice(sps), r.choice([1, 2, -1, -2])) for _ in range(r.randint(2, 3))]
            fs = [(s, k) for s, k in fs if not s.u.affine] or [(un.Sp("m", un.BY_SYMBOL["m"]), 1)]
        d = ex.fdim(fs)
        scale = gen.rscale(r, 6)
        if r.random() < .5:
            scale = (0, 0, 0, 0)
        if c < .6 and fs[0][0].u.storage and not fs[0][0].u.affine and r.random() < .5:
            scale = None
        ty = f"unit!({fs[0][0].text},{t},{br})" if scale is None and un.macro_ok(fs[0][0].text) else un.qtype(scale or (0, 0, 0, 0), d, t, br)
        sv = fs[0][0].value if ty.startswith("unit!") else un.scale_value(scale or (0, 0, 0, 0))
        reqs = []
        vs = [v for v in gen.vals(r, t, 6)]
        for _ in range(14):
            v = r.choice(vs)
            if r.random() < .6 or isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                v = r.choice([1, 2, 100, 0, 37, 120]) if t in un.INTS else r.choice([1.0, 0.0, -2.5, 273.15, 1e-3, 12345.678, 100.0])
                if t == "f32":
                    v = un.to_f32(v)
            prec = r.choice([None, None, 0, 1, 2, 3, 6, 12])
            k = r.random()
            if k < .65:
                g = []
                for s, n in fs:
                    o = [x for x in bydim[s.u.dim] if not x.u.affine or (len(fs) == 1 and n == 1)]
                    g.append((r.choice(o), n))
                e = None
                for s, n in g:
                    x = ex.usp(s) if n == 1 else ex.E("pow", ex.usp(s), n=n)
                    e = x if e is None else ex.E("mul", e, x)
                ut = ex.render(r, e, r.choice(["trad", "compact", "mixed"]))
                want = F(v) * sv / ex.fmag(g)
                off = g[0][0].u.off if len(g) == 1 else F(0)
                if want and not (-250 < ex.log10(want) < 250):
                    continue
                reqs.append((v, prec, ut, want - off, max(abs(want), abs(off)), 1e-12 + ex.loose(g)))
            elif k < .85:
                s = r.choice(sps)
                if s.u.dim == d:
                    continue
                reqs.append((v, prec, s.text, None, 0, 0))
            else:
                reqs.append((v, prec, r.choice(BAD), None, 0, 0))
        body = f"type Q={ty};\n"
        for i, (v, prec, ut, *_) in enumerate(reqs):
            f = "{}" if prec is None else "{:.%d}" % prec
            body += f" s(id,\"{i}\",||{{let q=Q::new({un.lit(t, v)}); format!(\"{f}\",q.fmt({rs_str(ut)}))}});\n"
        cases.append(Case(f"c{ci}", body, (ty, t, reqs)))
    # every unit (and two prefixed spellings of each) of every dimension, from a plain and a scaled source
    for d, l in bydim.items():
        base = [x for x in l if x.p == 0] + r.sample([x for x in l if x.p], min(len([x for x in l if x.p]), 12 if not chk.thorough else 60))
        for k in range(2):
            t = "f64" if k == 0 else r.choice(INTO_F64)
            scale = (0, 0, 0, 0) if k == 0 else gen.rscale(r, 6)
            ty, sv, reqs = un.qtype(scale, d, t, "()"), un.scale_value(scale), []
            for x in base:
                v = r.choice([25, 1, 100, 77]) if t in un.INTS else r.choice([25.0, 273.15, -2.5, 1e5 / 3])
                if t == "f32":
                    v = un.to_f32(v)
                want = F(v) * sv / x.value
                if not (-250 < ex.log10(abs(want)) < 250):
                    continue
                ut = x.text if r.random() < .85 else r.choice([" ", "\t", "\n", "  "]) * r.randint(0, 1) + x.text + r.choice(["", " ", "  ", "\n"])
                reqs.append((v, r.choice([None, None, 1, 4]), ut, want - x.u.off, max(abs(want), abs(x.u.off)), 1e-12 + un.LOOSE.get(x.u.name, 0)))
            body = f"type Q={ty};\n"
            for i, (v, prec, ut, *_) in enumerate(reqs):
                f = "{}" if prec is None else "{:.%d}" % prec
                body += f" s(id,\"{i}\",||{{let q=Q::new({un.lit(t, v)}); format!(\"{f}\",q.fmt({rs_str(ut)}))}});\n"
            cases.append(Case(f"c{len(cases)}", body, (ty, t, reqs)))
    p = Project("W14", prelude=PRE)
    p.spread(cases, 8)
    p.build()
    chk.log(f"built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    for c in cases:
        ty, t, reqs = c.meta
        if c.id in p.rejected:
            chk.violate(f"rejected:{ty}", f"formatting of {ty} does not compile: {p.rejected[c.id][0][1][:200]}", c.body); continue
        if c.id in p.crashed:
            chk.violate(f"crash:{ty}", p.crashed[c.id], c.body); continue
        for i, (v, prec, ut, want, base, tol) in enumerate(reqs):
            x = obs[c.id][str(i)]
            name = f"{v!r} {ty} .fmt({ut[:60]!r}) precision {prec}"
            chk.saw(f"{ty}:{ut}", sample={"type": ty, "value": v, "unit": ut, "precision": prec, "printed": x[1]} if want is not None and r.random() < .01 else None)
            if x[0] != "ok":
                chk.violate("panic:" + name, f"{name} panics: {x[1]}"); continue
            out = x[1]
            if want is None:
                if not out.startswith("Error"):
                    chk.violate("noerror:" + name, f"{name} prints {out!r}, must be an error")
                elif re.match(r"^\s*-?\d", out):
                    chk.violate("number:" + name, f"{name} prints {out!r}")
                else:
                    chk.count("error_messages")
                continue
            num, sep, rest = out.partition(" ")
            if rest != ut or not sep:
                chk.violate("text:" + name, f"{name} prints {out!r}: unit text not as given"); continue
            try:
                got = F(Decimal(num))
            except Exception:
                chk.violate("number:" + name, f"{name} prints {out!r}: no number"); continue
            slack = F(tol) * base
            if prec is not None:
                slack += F(1, 2) / F(10) ** prec * F("1.000000001")
                if len(num.partition(".")[2]) != prec:
                    chk.violate("precision:" + name, f"{name} prints {out!r}"); continue
            if abs(got - want) > slack:
                chk.violate("value:" + name, f"{name} prints {out!r}, should be {float(want)!r}"); continue
            if prec is None and got != F(float(num)):
                pass
            chk.count("numbers_checked")
    return chk.finish(min_events=1500)
