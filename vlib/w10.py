"""W10: reading values back in every unit, observed through value! and rescale!, judged by exact arithmetic."""
from fractions import Fraction as F
import common, gen, units as un, expr as ex, w05, w07
from common import Project, Case

PRE = "use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity,value,rescale}; use probe::*; #[derive(Clone,PartialEq)] struct BrA;"
trunc = w05.trunc


def run(chk):
    chk.rule = ("(unit declared in, unit read in, storage type, value): every unit spelling read in itself and in other units of its dimension, and random compound "
                "expressions; the quantity is declared through quantity! or built directly in an arbitrary scale; distinct by (from, to, type); non-trivial = the units differ")
    chk.assumptions = ["floats: 1e-12 (f32 1e-6) relative, values whose intermediate stays inside the float range",
                       "integers convert to the unit's storage scale as W05 says, then to the unit, truncating each time; affine units only on their own"]
    r = chk.rng
    sps = [s for s in un.spellings(names=True) if un.macro_ok(s.text) and s.u.name != "lumen"]
    plain = [s for s in sps if s.p == 0 and s.kind != "prefixed"]
    fam = {}
    for s in sps:
        fam.setdefault(s.u.dim, []).append(s)
    pairs = []
    for s in plain:
        pairs.append((s, s))
        f = fam[s.u.dim]
        fp = [x for x in f if x.p == 0]
        for _ in range(3 if not chk.thorough else 14):
            pairs.append((s, r.choice(r.choice([f, fp, fp]))))
        if s.u.affine or s.u.dim == un.TH1:
            pairs += [(s, x) for x in fp]
    for _ in range(150 if not chk.thorough else 1500):
        s = r.choice(sps)
        pairs.append((s, r.choice(fam[s.u.dim])))
    items = []
    for a, b in pairs:
        items.append(("unit", a, b, a.text, b.text, [(a, 1)], [(b, 1)], b.text))
    for e, fs in w07.gen(chk, 160 if not chk.thorough else 1500):
        if e.k == "u":
            continue
        # the target is the expression with some factors replaced by others of their dimension
        def sub(x):
            if x.k == "u":
                return ex.usp(r.choice([y for y in fam[x.a.u.dim] if not y.u.affine])) if r.random() < .6 else x
            return ex.E(x.k, sub(x.a) if x.a else None, sub(x.b) if x.b else None, x.n) if x.k in ("mul", "div", "pow") else x
        e2 = sub(e)
        fs2 = ex.factors(e2)
        if not w07.usable(fs2) or abs(ex.flog(fs)[0] - ex.flog(fs2)[0]) > 60:
            continue
        st = r.choice(["trad", "compact", "mixed"])
        # rescale! takes a Rust expression: only the traditional notation may hold parentheses there
        items.append(("expr", e, e2, ex.render(r, e, st), ex.render(r, e2, st), fs, fs2, ex.render(r, e2, "trad")))
    cases = []
    for kind, a, b, ta, tb, fa, fb, tr in items:
        aff = kind == "unit" and (a.u.affine or b.u.affine)
        sto = kind == "expr" and ex.all_storage(fb) or kind == "unit" and b.u.storage and not b.u.affine
        L = abs(ex.flog(fa)[0]) + abs(ex.flog(fb)[0])
        br = r.choice(["()", "()", "BrA"])
        body, ob = "", []
        body += f" q(id,\"ub\",||quantity!(1.0, {tb})); \n"
        body += f" q(id,\"ua\",||quantity!(1.0, {ta}));\n"
        fv = [r.choice(["2.5", "0.75", "1.0", "451.0"]), "-40.25", r.choice(["0.0", "1e6", "3.3e-5", "98.6"])]
        for i, v in enumerate(fv):
            body += f" v(id,\"f64:{i}\",||value!(quantity!({v}, {ta}), {tb}));\n"
            ob.append((f"f64:{i}", "f64", F(v), "decl"))
        body += f" v(id,\"f64t\",||value!(quantity!({fv[0]}, {ta}, f64, {br}), {tb}, f64, {br}));\n"
        ob.append(("f64t", "f64", F(fv[0]), "decl"))
        if L < 25:
            body += f" v(id,\"f32\",||value!(quantity!({fv[0]}f32, {ta}, f32, {br}), {tb}, f32, {br}));\n"
            ob.append(("f32", "f32", F(fv[0]), "decl"))
        if sto:
            body += f" q(id,\"rs\",||rescale!(quantity!({fv[0]}, {ta}), {tr}));\n"
        ts = r.sample(list(un.INTS), 4) if not chk.thorough else list(un.INTS)
        for T in ts:
            # source built directly in a's storage scale (its integer content is then exact)
            body += f" {{ let f = |x: {T}| {{ let mut q0 = quantity!({'1'}{T}, {ta}, {T}, {br}); q0.unsafe_value = x; q0 }};\n"
            vs = sorted(set(gen.ivals(r, T, 4)))
            vs = r.sample(vs, min(len(vs), 9)) + [x for x in (2, 1000, -1000, 77) if un.INTS[T][0] <= x <= un.INTS[T][1]]
            vs = list(dict.fromkeys(vs))
            body += f" for (i,x) in [{','.join(un.lit(T, x) for x in vs)}].into_iter().enumerate() {{ v(id,&format!(\"{T}:{{i}}\"),||value!(f(x), {tb}, {T}, {br}));"
            if sto and br == "()":
                body += f" q(id,&format!(\"rs{T}:{{i}}\"),||rescale!(f(x), {tr}, {T}));"
            body += "} }\n"
            ob += [(f"{T}:{i}", T, x, "raw") for i, x in enumerate(vs)]
        cases.append(Case(f"c{len(cases)}", body, dict(kind=kind, a=a, b=b, ta=ta, tb=tb, fa=fa, fb=fb, ob=ob, aff=aff, sto=sto, fv=fv, br=br)))
    p = Project("W10", prelude=PRE)
    p.spread(cases, 16)
    p.build()
    chk.log(f"{len(cases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    for c in cases:
        m = c.meta
        name = f"{m['ta']} -> {m['tb']}"
        if c.id in p.rejected:
            chk.violate("rejected:" + name, f"{name} does not compile: {p.rejected[c.id][0][1][:200]}", c.body); continue
        o = obs.get(c.id, {})
        if c.id in p.crashed or "PANIC" in o or o.get("ub", ("",))[0] != "ok":
            chk.violate("crash:" + name, f"{name}: {p.crashed.get(c.id)} {o}", c.body); continue
        ub = un.Q(o["ub"][1])
        su, sd = ub.scale, ub.dim
        mA, mB = ex.fmag(m["fa"]), ex.fmag(m["fb"])
        offA = m["a"].u.off if m["kind"] == "unit" else F(0)
        offB = m["b"].u.off if m["kind"] == "unit" else F(0)
        lo_ = ex.loose(m["fa"]) + ex.loose(m["fb"])
        cfB = mB / un.scale_value(su)
        if m["sto"]:
            cfB = F(1)
        sa = None
        for k, T, x, how in m["ob"]:
            y = o.get(k)
            what = f"value!({x if how == 'raw' else float(x)} [{T}] {m['ta']}{' (raw)' if how == 'raw' else ''}, {m['tb']})"
            if y is None:
                chk.violate(f"lost:{what}", "no event", c.body); continue
            chk.saw()
            if how == "decl":
                if y[0] != "ok":
                    chk.violate(f"panic:{what}", f"{what} panicked: {y[1]}", c.body); continue
                t, bits = y[1].split(";")
                g = un.parse_num(t, bits)
                if t != T:
                    chk.violate(f"type:{what}", f"{what} has type {t}", c.body); continue
                want = (x + offA) * mA / mB - offB
                base = max(abs(want), abs(x * mA / mB), abs(offA * mA / mB), abs(offB))
                tol = (1e-12 if T == "f64" else 2e-6) + lo_
                if g != g or abs(F(g) - want) > F(tol) * base:
                    chk.violate(f"value:{what}", f"{what} = {g!r}, the quantity amounts to {float(want)!r}", c.body)
                continue
            # integers, starting from a known stored number in a's scale
            if sa is None:
                sa = un.Q(o["ua"][1]).scale
            lo, hi = un.INTS[T]
            n, d, fits = w05.ratio(sa, su)
            if not (lo <= x * n <= hi) or not fits:
                if m["sto"]:
                    res = int(y[1].split(";")[1]) if y[0] == "ok" else None
                    why = w05.judge({"t": T, "a": sa, "b": su}, x, res)
                    if why:
                        chk.violate(f"value:{what}", f"{what}: {why}", c.body)
                chk.count("integer_out_of_exact_range")
                continue
            s = trunc(F(x * n, d))
            if not lo <= s <= hi:
                continue
            if y[0] != "ok":
                chk.violate(f"panic:{what}", f"{what} panicked: {y[1]}", c.body); continue
            t, bits = y[1].split(";")
            g = int(bits)
            if t != T:
                chk.violate(f"type:{what}", f"{what} has type {t}", c.body); continue
            if m["sto"]:
                if g != s:
                    chk.violate(f"value:{what}", f"{what} = {g}, exact is {s}", c.body)
                continue
            want = F(s) / cfB - offB
            if not lo <= want <= hi:
                chk.count("integer_out_of_exact_range"); continue
            e = (abs(F(s) / cfB) + abs(offB)) * (F(1, 10**12) + F(lo_)) + F(1, 10**12)
            if not trunc(want - e) <= g <= trunc(want + e):
                chk.violate(f"value:{what}", f"{what} = {g}, the quantity amounts to {float(want)!r}", c.body)
        if m["sto"]:
            for k, y in o.items():
                if not k.startswith("rs"):
                    continue
                what = f"rescale!({m['ta']}, {m['tb']}) [{k}]"
                if y[0] != "ok":
                    if k == "rs":
                        chk.violate(f"panic:{what}", f"{what} panicked: {y[1]}", c.body)
                    elif o[k[2:]][0] == "ok":
                        chk.violate(f"panic:{what}", f"{what} panicked, value! did not: {y[1]}", c.body)
                    continue
                q = un.Q(y[1])
                chk.saw()
                if (q.scale, q.dim) != (su, sd) or q.t != ("f64" if k == "rs" else k[2:].split(":")[0]):
                    chk.violate(f"type:{what}", f"{what} is {y[1]}", c.body); continue
                if k == "rs":
                    want = (F(m["fv"][0]) + offA) * mA / mB
                    if un.rel_err(q.num, want) > 1e-12 + lo_:
                        chk.violate(f"value:{what}", f"{what} of {m['fv'][0]} is {q.num!r}, should be {float(want)!r}", c.body)
                elif o[k[2:]][1] != y[1].split(";")[1] + ";" + y[1].split(";")[3]:
                    chk.violate(f"value:{what}", f"{what} gives {y[1]}, value! gives {o[k[2:]]}", c.body)
        if m["ta"] != m["tb"]:
            chk.distinct.add(name)
        if len(chk.samples) < 8 and m["ta"] != m["tb"] and r.random() < .02:
            chk.samples.append({"from": m["ta"], "to": m["tb"], "declared": m["fv"], "observed": {k: list(v) for k, v in list(o.items())[2:5]}})
    return chk.finish(min_events=5000)

