"""W23: every expression is evaluated twice in the same program, by the compiler (in a constant, a static
or a const function) and at run time (with its number hidden from the optimizer), and the two are compared."""
import math
import common, gen, units as un, expr as ex, w04, w05, w07
from common import Project, Case

PRE = ("use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity,value,rescale}; use probe::*; use std::hint::black_box;\n"
       "#[derive(Clone,PartialEq)] pub struct BrA;")


def run(chk):
    chk.rule = ("an expression (declaration by quantity!, Quantity::new, rescale functions of every storage type, rescale!, value!, alone or nested) with a number, placed in an inline constant, "
                "a constant item, a static table, an associated constant or a const function, and evaluated again at run time with the number behind black_box; distinct by expression; "
                "non-trivial = the expression converts")
    chk.assumptions = ["NaN payloads are left open by the language", "plain declarations in non-storage units (quantity!(1.0, ft) without a storage type) and operators are trait calls, which stable Rust cannot evaluate in constants",
                       "overflow-checked build: a rescale that panics at run time is a compile error in a constant"]
    r = chk.rng
    cases = []
    big = 6 if chk.thorough else 1

    def form(kind, i, expr, ty, v, t):
        """(items, body) observing `expr` (with X standing for the number) at both times"""
        lit = un.lit(t, v)
        obs = "v" if ty is None else "q"
        real = ty and ty != "num"
        asc = lambda e: f"let y: {ty} = {e}; y" if real else e
        rt = f"{obs}(id,\"{i}r\",||{{let x=black_box({lit}); {asc(expr.replace('X', 'x'))}}});"
        cx = expr.replace("X", lit)
        if kind == "item" and ty and ty != "num":
            return f"const C{i}: {ty} = {cx};", rt + f"{obs}(id,\"{i}c\",||C{i}.clone());"
        if kind == "static" and ty and ty != "num":
            return f"static S{i}: [{ty};2] = [{cx},{cx}];", rt + f"{obs}(id,\"{i}c\",||S{i}[1].clone());"
        if kind == "assoc" and ty and ty != "num":
            return (f"struct H{i}; trait G{i} {{ const Q: {ty}; }} impl G{i} for H{i} {{ const Q: {ty} = {cx}; }}",
                    rt + f"{obs}(id,\"{i}c\",||<H{i} as G{i}>::Q);")
        if kind == "fn" and ty and ty != "num":
            return (f"const fn f{i}(x: {t}) -> {ty} {{ {expr.replace('X', 'x')} }} const F{i}: {ty} = f{i}({lit});",
                    f"{obs}(id,\"{i}r\",||f{i}(black_box({lit})));" + f"{obs}(id,\"{i}c\",||F{i}.clone());")
        return "", rt + f"{obs}(id,\"{i}c\",||const {{ {asc(cx)} }});"

    def add(name, exprs, t, conv=True, doomed=False):
        """exprs: [(expression, type or None for a bare number or 'infer', number)]"""
        items, body = "", ""
        for i, (e, ty, v) in enumerate(exprs):
            k = r.choice(["inline", "item", "static", "assoc", "fn"])
            a, b = form(k if ty != "infer" else "inline", i, e, None if ty is None else ("num" if ty == "infer" else ty), v, t)
            items += a; body += b + "\n"
        cases.append(Case(f"c{len(cases)}", "{ " + items + "\n" + body + "}", dict(name=name, n=len(exprs), ex=exprs, conv=conv, doomed=doomed)))

    # 1. integer rescaling in every storage type
    named = [(2, 1, 1, 0), (4, 2, 2, 0), (7, 3, 2, 0), (8, 4, 3, 0), (0, -2, 1, 0), (-2, -2, -1, 1), (-3, 0, -2, 1), (1, 0, 0, 1), (0, 0, 0, 0), (-3, 0, -4, 0)]
    for t in un.INTS:
        for _ in range(14 * big):
            if r.random() < .5:
                x, y = r.choice([-9, -6, -3, -2, -1, 0, 1, 2, 3, 6]), r.choice([-9, -6, -3, 0, 1, 2, 3])
                a, b = (x, 0, x, 0), (y, 0, y, 0)
            elif r.random() < .5:
                a, b = r.choice(named), r.choice(named)
            else:
                a, b = (tuple(r.randint(-4, 4) for _ in range(3)) + (r.choice([0, 0, 1, -1]),) for _ in range(2))
            n, d, fits = w05.ratio(a, b)
            if not fits:
                continue
            lo, hi = un.INTS[t]
            br, dm = r.choice(["()", "()", "BrA"]), gen.rdim(r)
            A, B = un.qtype(a, dm, t, br), un.qtype(b, dm, t, br)
            near = [x for x in (hi // n, hi * d // n, d, n, hi // d) if abs(x) < 2**129]
            vs = gen.ivals(r, t, 4, near)
            e = f"rescale_{t}({A}::new(X))".replace("Quantity<", "Quantity::<", 1)
            ok = [v for v in vs if lo <= w05.trunc(w05.F(v * n, d)) <= hi]
            no = [v for v in vs if not lo <= w05.trunc(w05.F(v * n, d)) <= hi]
            if ok:
                add(f"rescale_{t} {a}->{b}", [(e, B, v) for v in r.sample(ok, min(len(ok), 6))], t, a != b)
            if no and r.random() < .3:
                v = r.choice(no)
                add(f"rescale_{t} {a}->{b} of {v}", [(e, B, v)], t, True, True)
    # 2. float rescaling
    for _ in range(160 * big):
        t = r.choice(["f64", "f64", "f32"])
        hi = r.choice([12, 30, 60])
        a, b, dm, br = gen.rscale(r, hi), gen.rscale(r, hi), gen.rdim(r), r.choice(["()", "()", "BrA"])
        if not w04.safe(a, b, t):
            continue
        A, B = un.qtype(a, dm, t, br), un.qtype(b, dm, t, br)
        f = {"f32": "rescale_f32", "f64": r.choice(["rescale", "rescale_f64"])}[t]
        e = f"{f}({A}::new(X))".replace("Quantity<", "Quantity::<", 1)
        add(f"{f} {a}->{b}", [(e, B, v) for v in r.sample(gen.fvals(r, t, 6), 7)], t, a != b)
    # 3. declaring, rescaling and reading in written units
    exprs = w07.gen(chk, 220 * big)
    for e, fs in exprs:
        text = ex.render(r, e, r.choice(["trad", "compact", "mixed"]))
        if abs(ex.flog(fs)[0]) > 30 or "as" in text.split():
            continue
        t = r.choice(["f64", "f64", "f32"]) if abs(ex.flog(fs)[0]) < 18 else "f64"
        br = r.choice(["()", "()", "BrA"])
        v = r.choice([1.0, 2.5, -40.25, 1e6, 0.0, 98.5])
        u = f"quantity!(X, {text}, {t}, {br})"
        out = [(u, "infer", v)]
        if ex.all_storage(fs):
            out.append((u, f"unit!({text}, {t}, {br})", v))
            if br == "()":
                tr = ex.render(r, e, "trad")
                out.append((f"rescale!({u}, {tr}, {t})", f"unit!({text}, {t})", v))
            it = r.choice(list(un.INTS))
            iv = r.choice([0, 1, 7, 100])
            add(f"quantity! {text} {it}", [(f"quantity!(X, {text}, {it}, {br})", f"unit!({text}, {it}, {br})", iv),
                                           (f"value!(quantity!(X, {text}, {it}, {br}), {text}, {it}, {br})", None, iv)], it, False)
        out.append((f"value!({u}, {text}, {t}, {br})", None, v))
        add(f"quantity! {text} {t}", out, t)
    fam = {}
    for s in un.spellings(names=True):
        if un.macro_ok(s.text) and s.u.name != "lumen" and s.text != "as":
            fam.setdefault(s.u.dim, []).append(s)
    for _ in range(200 * big):
        f = fam[r.choice(list(fam))]
        a, b = r.choice(f), r.choice(f)
        t = r.choice(["f64", "f64", "f32"])
        if abs(math.log10(float(a.value)) - math.log10(float(b.value))) > 30 or abs(math.log10(float(a.value))) > 30:
            continue
        br = r.choice(["()", "BrA"])
        v = r.choice([1.0, 2.5, -40.25, 300.0, 98.5])
        u = f"quantity!(X, {a.text}, {t}, {br})"
        out = [(u, "infer", v), (f"value!({u}, {b.text}, {t}, {br})", None, v)]
        add(f"{a.text} -> {b.text} {t}", out, t)
        if a.u.storage and b.u.storage:
            it = r.choice(["i64", "i32", "u32", "i128"])
            n = a.value / b.value
            if 1e-6 < n < 1e6:
                add(f"{a.text} -> {b.text} {it}", [(f"value!(quantity!(X, {a.text}, {it}, {br}), {b.text}, {it}, {br})", None, x) for x in (0, 1, 7, 1999)], it)

    p = Project("W23", prelude=PRE)
    p.spread([c for c in cases if not c.meta["doomed"]], 12)
    doomed = [c for c in cases if c.meta["doomed"]]
    p.add_bin("doomed", doomed)
    p.build(max_rounds=6)
    chk.log(f"{len(cases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    rejected = dict(p.rejected)
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    # what a constant refuses must panic at run time: run those without their constant
    again = [c for c in doomed if c.id in rejected]
    if again:
        p2 = Project("W23r", prelude=PRE)
        p2.spread([Case(c.id, f"q(id,\"0r\",||{{let x=black_box({un.lit(*reversed(num(c)))}); let y: {c.meta['ex'][0][1]} = {c.meta['ex'][0][0].replace('X', 'x')}; y}});", {}) for c in again], 2)
        p2.build()
        for e in p2.run():
            obs.setdefault(e[0], {})[e[1]] = e[2:]
    for c in cases:
        m = c.meta
        name = m["name"]
        o = obs.get(c.id, {})
        if c.id in rejected:
            code, msg, txt = rejected[c.id][0]
            if not m["doomed"]:
                chk.violate("rejected:" + name, f"{name}: not accepted in a constant: {msg[:200]}", c.body)
            else:
                st = o.get("0r")
                if not st or st[0] != "panic":
                    chk.violate("constant-only:" + name, f"{name}: the constant is refused ({msg[:120]}) but at run time: {st}", c.body)
                elif code != "E0080":
                    chk.violate("rejected:" + name, f"{name}: refused for another reason than its evaluation: {code} {msg[:150]}", c.body)
                chk.count("refused_in_constant_and_panicking_at_run_time")
                chk.saw(name)
            continue
        if c.id in p.crashed or "PANIC" in o:
            chk.violate("crash:" + name, f"{name}: {p.crashed.get(c.id)} {o}", c.body); continue
        for i in range(m["n"]):
            a, b = o.get(f"{i}c"), o.get(f"{i}r")
            what = f"{m['ex'][i][0]} with {m['ex'][i][2]!r}"
            if a is None or b is None:
                chk.violate("lost:" + name, f"{what}: constant {a}, run time {b}", c.body); continue
            if a[0] != b[0] or a[1] != b[1]:
                chk.violate(f"differs:{name} v={m['ex'][i][2]!r}", f"{what}: constant {a}, run time {b}", c.body)
            chk.saw((name, i) if m["conv"] else None, sample={"expression": what, "constant": a[1], "run_time": b[1]} if r.random() < .004 else None)
    return chk.finish(min_events=1500)


def num(c):
    v = c.meta["ex"][0][2]
    t = c.meta["name"].split("_")[1].split()[0]
    return v, t
