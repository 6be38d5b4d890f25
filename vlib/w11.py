"""W11: modules of scale-preferred declarators, observed against the default declaration of the same text."""
from fractions import Fraction as F
import common, units as un, expr as ex, w05, w07
from common import Project, Case, rs_str

PRE = """use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,define_unit_declarators}; use probe::*;
"""
AXES = [("gram", ["carat"]), ("meter", []), ("second", ["minute", "hour", "day", "month"]), ("ampere", []), ("kelvin", ["rankine"]),
        ("mole", []), ("candela", []), ("radian", ["degree", "gradian", "turn", "arcminute", "arcsecond"])]
TRAITS = ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle"]
SI = ["Kilogram", "Meter", "Second", "Ampere", "Kelvin", "Mole", "Candela", "Radian"]


def factor(f, pi):
    """Fraction -> exponents of 2,3,5,pi"""
    out = []
    n, d = f.numerator, f.denominator
    for b in (2, 3, 5):
        e = 0
        while n % b == 0:
            n //= b; e += 1
        while d % b == 0:
            d //= b; e -= 1
        out.append(e)
    assert n == d == 1
    return tuple(out) + (pi,)


def choose(r, wild):
    """[(scale name, exponents)] for the eight base dimensions"""
    out = []
    for i, (u, others) in enumerate(AXES):
        c = r.random()
        if others and c < .4:
            x = un.BY_NAME[r.choice(others)]
            out.append((x.name.capitalize(), factor(x.mag, x.pi)))
            continue
        x = un.BY_NAME[u]
        if c < .6:
            pn, pe = ("kilo", 3) if u == "gram" else ("", 0)
        else:
            pn, _, pe = r.choice([p for p in un.PREFIXES if wild or abs(p[2]) <= 6])
        out.append(((pn + u).capitalize(), factor(x.mag * F(10) ** pe, x.pi)))
    return out


def spelled(r, e, style):
    t = ex.render(r, e, style)
    return None if style != "trad" and ("(" in t or t[0].isdigit() or " . " in t) else t


def run(chk):
    chk.rule = ("(preferred scales, brand) x (unit or expression) x form: quantity! untyped and typed, methods on f64/i32/i64, literals plain and typed; each observed "
                "together with the default declaration of the same text; distinct by (module, text, form)")
    chk.assumptions = ["preferred scales are storage units (those whose magnitude is a product of powers of 2, 3, 5, pi)",
                       "integers: the default declaration's integer rescaled, truncating, judged as in W05; results outside the type are not judged",
                       "floats agree to 1e-12 (f32 2e-6) relative, inside the storage type's normal range", "no affine unit inside an expression",
                       "u32/u64 literals are not offered by scale-preferred modules (counted)"]
    r = chk.rng
    sps = [s for s in un.spellings(names=True) if un.macro_ok(s.text) and s.u.name != "lumen"]
    base1 = [s for s in sps if s.p == 0]
    nmod = 8 if not chk.thorough else 30
    mods = []
    for i in range(nmod):
        ns = f"ns{i}"
        brand = f"Fr{i}" if r.random() < .5 else None
        if i == 0:
            brand, sc = "Fr0", None                    # branded copy of the defaults
        elif i == 1:
            sc = [("Kilogram", (0,) * 4), ("Millimeter", (-3, 0, -3, 0))] + [(s, (0,) * 4) for s in SI[2:]]
        else:
            sc = choose(r, i % 3 == 0)
        decl = f"define_unit_declarators!({', '.join([ns] + ([brand] if brand else []) + [n for n, _ in (sc or [])])});"
        mods.append((ns, brand, sc, decl))
    p = Project("W11", prelude=PRE, deps='culit = "0.6.0"\n')
    allcases, ncase = [], 0
    want_by_bin = []
    for i, (ns, brand, sc, decl) in enumerate(mods):
        B = f"{ns}::{brand}" if brand else "()"
        cases = []

        def add(name, body, meta, attr="", req=True, ns=ns, cases=cases):
            cases.append(Case(f"k{len(allcases) + len(cases)}", f"use {ns}::*;\n" + body, (i, name, meta, req), attr=attr))

        def pair(k, T, form, dflt, loose=0.0):
            return (f" q(id,\"{k}\",||{form});\n q(id,\"{k}~\",||{dflt});\n", (k, T, form, loose))

        def emit(name, prs, attr="", req=True):
            add(name, "".join(b for b, _ in prs), [m for _, m in prs], attr, req)
        n = (70 if not chk.thorough else 140)
        pool = r.sample(base1, min(len(base1), n // 2)) + r.sample(sps, n - n // 2) + [s for s in sps if s.text in ("min", "dag", "dam", "das", "cd", "Pa", "ft", "h", "mol", "kmol", "kg", "g", "mm", "rad", "deg", "degC")]
        for sp in pool:
            t = sp.text
            lo = un.LOOSE.get(sp.u.name, 0)
            v = r.choice(["2.5", "0.1", "1.0", "37.7", "1234567.891", "-40.25", "9.80665", "-0.3"])
            if sc is None and not sp.u.storage:
                pass
            Q = "whippyunits::quantity!"
            pr = [pair("f", "f64", f"quantity!({v}, {t})", f"{Q}({v}, {t})", lo), pair("e", "f64", f"quantity!({v}, {t}, f64)", f"{Q}({v}, {t}, f64)", lo),
                  pair("s", "f32", f"quantity!({v}f32, {t}, f32)", f"{Q}({v}f32, {t}, f32)", lo)]
            emit(f"quantity! {t}", pr)
            pr = []
            for T in un.INTS:
                lo_, hi_ = un.INTS[T]
                w = r.choice([r.randint(1, 120), r.randint(1, min(hi_, 10**6)), r.randint(1, hi_ >> r.randint(0, hi_.bit_length() - 3)), 3])
                pr.append(pair(T, T, f"quantity!({w}{T}, {t}, {T})", f"{Q}({w}{T}, {t}, {T})"))
            emit(f"quantity! int {t}", pr)
            if not sp.u.affine and r.random() < .5:
                e = r.choice([2, 3, -1, -2])
                tx = r.choice([f"{t}^{e}", f"1/{t}", f"({t})^{e}"] + ([f"{t}{e}"] if e > 0 and sp.kind == "symbol" else []))
                emit(f"quantity! {tx}", [pair("f", "f64", f"quantity!({v}, {tx})", f"{Q}({v}, {tx})", 3 * lo), pair("s", "f32", f"quantity!({v}f32, {tx}, f32)", f"{Q}({v}f32, {tx}, f32)", 3 * lo)])
            if t[0] not in "eE" and sp.kind != "name" or t in ("inch", "pound"):
                lv = v.lstrip("-")
                A = f"#[culit::culit({ns}::literals)]"
                sym = sp.kind == "symbol"
                emit(f"literal {t}", [pair("f", "f64", f"{lv}{t}", f"{Q}({lv}, {t})", lo), pair("s", "f32", f"{lv}{t}_f32", f"{Q}({lv}f32, {t}, f32)", lo), pair("d", "f64", f"{lv}{t}_f64", f"{Q}({lv}, {t})", lo)], A, sym)
                w = r.randint(1, 5000)
                z = r.choice([r.randint(1, 5000), r.randint(2**31, 2**32 - 1), r.randint(2**33, 2**45)])
                y = r.choice([r.randint(1, 5000), r.randint(2**31, 2**32 - 1)])
                emit(f"int literal {t}", [pair("i", "i32", f"{w}{t}", f"{Q}({w}i32, {t}, i32)"), pair("j", "i32", f"{w}{t}_i32", f"{Q}({w}i32, {t}, i32)"), pair("l", "i64", f"{z}{t}_i64", f"{Q}({z}i64, {t}, i64)"),
                                                  pair("u", "u32", f"{y}{t}_u32", f"{Q}({y}u32, {t}, u32)"), pair("v", "u64", f"{z}{t}_u64", f"{Q}({z}u64, {t}, u64)")], A, sym)
        for e, fs in w07.gen(chk, 60 if not chk.thorough else 200):
            if not w07.usable(fs, 60):
                continue
            t = spelled(r, e, r.choice(["trad", "trad", "compact"])) or ex.render(r, e, "trad")
            v = r.choice(["2.5", "12.1", "0.3", "98765.4321"])
            lo = ex.loose(fs)
            pr = [pair("f", "f64", f"quantity!({v}, {t})", f"{Q}({v}, {t})", lo)]
            if abs(ex.flog(fs)[0]) < 20:
                pr.append(pair("s", "f32", f"quantity!({v}f32, {t}, f32)", f"{Q}({v}f32, {t}, f32)", lo))
            if ex.all_storage(fs):
                w = r.randint(1, 10**6)
                pr.append(pair("i", "i64", f"quantity!({w}i64, {t}, i64)", f"{Q}({w}i64, {t}, i64)"))
            emit(f"expression {t}", pr)
        # methods
        if sc is None:
            ms = [(u.plural, u.symbols[0], u) for u in un.CATALOGUE if u.storage and u.system == "Metric" and not u.affine and u.name != "lumen"]
            req = lambda u: u.name in dict(AXES)
        else:
            ms = [(pn + un.BY_NAME[u].plural, pn + u, un.BY_NAME[u]) for u, _ in AXES for pn, ps, pe in [("", "", 0)] + r.sample(un.PREFIXES, 8 if not chk.thorough else 24)]
            req = lambda u: True
        for m, t, u in ms:
            v, w, z = r.choice(["2.5", "-0.3", "18.1", "54321.09876"]), r.randint(1, 10**5), r.randint(-10**9, 10**9) << r.choice([0, 0, 12, 25])
            if not un.macro_ok(t):
                continue
            emit(f"method {m}", [pair("f", "f64", f"{v}f64.{m}()" if v[0] != "-" else f"({v}f64).{m}()", f"{Q}({v}, {t})"),
                                 pair("i", "i32", f"{w}i32.{m}()", f"{Q}({w}i32, {t}, i32)"), pair("l", "i64", f"({z}i64).{m}()", f"{Q}({z}i64, {t}, i64)")], "", req(u))
        r.shuffle(cases)
        p.add_bin(f"b{i}", cases, decl)
        allcases += cases
    p.build(max_rounds=8)
    chk.log(f"{len(mods)} modules, {len(allcases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    unj = 0
    for c in allcases:
        i, name, meta, req = c.meta
        ns, brand, sc, decl = mods[i]
        where = f"{decl[:-1]}: {name}"
        sig = f"{name} in {'the branded copy' if sc is None else ','.join(n for n, _ in sc)}"
        if c.id in p.rejected:
            msg = " ".join(m[1] for m in p.rejected[c.id])
            if req or "cannot find" not in msg and "no method named" not in msg:
                chk.violate("rejected:" + sig, f"{where} does not compile: {p.rejected[c.id][0][1][:250]}", decl + "\n" + c.body)
            else:
                chk.count("not_offered")
            continue
        if c.id in p.crashed:
            chk.violate("crash:" + sig, f"{where}: {p.crashed[c.id]}", c.body); continue
        for k, T, form, loose in meta:
            x, y = obs[c.id].get(k), obs[c.id].get(k + "~")
            if not y or y[0] != "ok":
                chk.count("default_declaration_failed"); continue
            yq = un.Q(y[1])
            if sc is None:
                us = yq.scale
            else:
                us = tuple(sum(d * s[1][j] for d, s in zip(yq.dim, sc)) for j in range(4))
            if x and x[0] == "panic" and T not in un.FLOATS:
                n_, d_, fits = w05.ratio(yq.scale, us)
                lo, hi = un.INTS[T]
                if not (fits and lo <= w05.trunc(F(yq.num * n_, d_)) <= hi):
                    chk.count("integer_overflow_reported"); continue
            if not x or x[0] != "ok":
                chk.violate("fail:" + sig, f"{where} `{form}`: {x}", decl + "\n" + c.body); continue
            q = un.Q(x[1])
            chk.saw()
            if (q.scale, q.dim) != (us, yq.dim):
                chk.violate("unit:" + sig, f"{where} `{form}` has unit {q.scale} {q.dim}; the preferred scales give {us} {yq.dim}", decl + "\n" + c.body); continue
            wantb = brand or "()"
            if q.t != T or q.brand.split("::")[-1] != wantb:
                chk.violate("type:" + sig, f"{where} `{form}` is {x[1]}, expected {T} with brand {wantb}", decl + "\n" + c.body); continue
            if T in un.FLOATS:
                want = F(yq.num) * un.scale_value(yq.scale) / un.scale_value(us)
                big, small = (F(10) ** 300, F(1, 10**300)) if T == "f64" else (F(10) ** 37, F(1, 10**37))
                if want and not small < abs(want) < big or yq.num and not small < abs(F(yq.num)) < big:
                    unj += 1; continue
                tol = (F("1e-12") if T == "f64" else F("2e-6")) * abs(want)
                if sc is None:
                    tol = 0
                if abs(F(q.num) - want) > tol:
                    chk.violate("value:" + sig, f"{where} `{form}` stores {q.num}; the default declaration {yq.num} amounts to {float(want)}", decl + "\n" + c.body)
            else:
                if sc is None:
                    why = None if q.num == yq.num else f"stores {q.num}, declared {yq.num}"
                else:
                    why = w05.judge({"a": yq.scale, "b": us, "t": T}, yq.num, q.num)
                if why:
                    chk.violate("value:" + sig, f"{where} `{form}` (default {yq.num}): {why}", decl + "\n" + c.body)
        chk.distinct.add(f"{i}:{name}")
        if len(chk.samples) < 8 and r.random() < .01:
            chk.samples.append({"module": decl, "form": meta[0][2], "observed": obs[c.id].get(meta[0][0], ["", ""])[1], "default": obs[c.id].get(meta[0][0] + "~", ["", ""])[1]})
    chk.coverage.update(modules=len(mods), outside_float_range=unj)
    return chk.finish(min_events=2500)
