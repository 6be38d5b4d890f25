"""W06: erasure of dimensionless and angle quantities, every observed number judged against exact arithmetic."""
import math
from fractions import Fraction as F
import common, gen, units as un, w04, w05
from common import Project, Case

PRE = ("use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity}; use probe::*; "
       "use whippyunits::default_declarators::*; fn take<T:Bits>(x:T)->T{x} ")
RAD_SAME = ["f32", "f64", "i16", "i32", "i64", "i128", "isize"]
RAD_CROSS = [("f32", "f64"), ("f64", "f32"), ("i32", "f32"), ("i32", "f64"), ("i64", "f32"), ("i64", "f64"),
             ("f32", "i32"), ("f64", "i32"), ("f32", "i64"), ("f64", "i64")]
ZERO = (0, 0, 0, 0)
Z8 = (0,) * 8
NAMED = [(3, 0, 3, 0), (-3, 0, -3, 0), (2, 1, 1, 0), (-2, -1, -1, 0), (4, 2, 2, 0), (-4, -2, -2, 0), (-2, -2, -1, 1), (-3, 0, -2, 1), (1, 0, 0, 1),
         (-4, -3, -2, 1), (-6, -4, -3, 1), (0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (-1, 0, 0, 0),
         (0, -1, 0, 0), (0, 0, -1, 0), (0, 0, 0, -1), (6, 0, 6, 0), (-9, 0, -9, 0), (7, 3, 2, 0)]


def angle(e):
    return (0,) * 7 + (e,)


def pick_scale(r, t):
    c = r.random()
    if c < .12:
        return ZERO
    if c < .6:
        return r.choice(NAMED)
    if t in ("i8", "u8"):
        h = 3
    elif t in ("i16", "u16"):
        h = 5
    else:
        h = 10
    return (r.randint(-h, h), r.randint(-h // 2, h // 2), r.randint(-h // 2, h // 2), r.choice([0, 0, 0, 1, -1]))


def sat(t, x):
    lo, hi = un.INTS[t]
    return max(lo, min(hi, x))


def judge_cross(s, t, scale, v, got):
    """None if `got` (a t) is an acceptable plain value of v (an s) in a unit of `scale`"""
    if s in un.FLOATS and (math.isnan(v) or math.isinf(v)):
        if t in un.INTS:
            want = 0 if math.isnan(v) else un.INTS[t][v > 0]
            return None if got == want else f"gave {got}, `as` gives {want}"
        if math.isnan(v):
            return None if math.isnan(got) else f"NaN became {got}"
        return None if got == v else f"{v} became {got}"
    x = F(v)
    ratio = un.scale_value(scale)
    true = x * ratio
    if t in un.INTS:
        if scale == ZERO:
            want = sat(t, w05.trunc(x))
            return None if got == want else f"gave {got}, its plain value is {float(x):.20g}"
        slack = abs(true) * F(w04.tol("f64", scale))
        a, b = sat(t, w05.trunc(true - slack)), sat(t, w05.trunc(true + slack))
        return None if a <= got <= b else f"gave {got}, its plain value is {float(true):.20g}"
    tl = w04.tol(t, scale) if scale != ZERO else (2 * un.EPS["f32"] if t == "f32" else un.EPS["f64"])
    if v == 0:
        return None if got == 0 else f"zero became {got}"
    mx = F(1.7976931348623157e308) if t == "f64" else F(3.4028234663852886e38)
    mn, sub = (F(2.2250738585072014e-308), F(5e-324)) if t == "f64" else (F(1.1754943508222875e-38), F(1.401298464324817e-45))
    a = abs(true)
    if a > mx:
        return None if math.isinf(got) or a <= mx * F(1.000001) else f"gave {got} for {float(true) if a < 10**300 else 'huge'}"
    if math.isnan(got) or (math.isinf(got) and a < mx * F(0.999999)):
        return f"gave {got}, true {float(true)}"
    if math.isinf(got):
        return None
    if a < mn:
        return None if abs(F(got) - true) <= 2 * sub + F(tl) * a else f"gave {got!r}"
    return None if un.rel_err(got, true) <= tl else f"gave {got!r}, its plain value is {float(true)!r}"


def build(chk):
    r = chk.rng
    cases = []
    k = [0]

    def vals_for(s, scale, t=None):
        if s in un.FLOATS:
            return gen.fvals(r, s, 8)
        n, d, _ = w05.ratio(scale, ZERO)
        hi = un.INTS[s][1]
        near = [x for x in (hi // n, d, n, d * 60, d * 49, 2**53, 2**31, 2**24, 300, 70000) if abs(x) < 2**129]
        if t in un.INTS:
            near += [un.INTS[t][1] * d // n]
        return gen.ivals(r, s, 8, near)

    def add(kind, s, t, scale, d, br="()"):
        vs = vals_for(s, scale, t)
        A = un.qtype(scale, d, s, br)
        form = r.choice([f"let y:{t}=A::new(v).into();y", f"<{t}>::from(A::new(v))", f"take::<{t}>(A::new(v).into())"])
        body = f"type A={A}; for (i,v) in [{','.join(un.lit(s, v) for v in vs)}].into_iter().enumerate() {{ v(id,&format!(\"{{i}}\"),||{{{form}}}); }}"
        body = body.replace("{ v(id", "{ probe::v(id")
        cases.append(Case(f"c{len(cases)}", body, dict(kind=kind, s=s, t=t, a=scale, d=d, vs=vs)))

    per = 5 if not chk.thorough else 30
    for t in gen.NUMT:                           # dimensionless, same type
        add("same", t, t, ZERO, Z8)
        for _ in range(per):
            add("same", t, t, pick_scale(r, t), Z8)
    for s in gen.NUMT:                           # dimensionless, every ordered pair of types
        for t in gen.NUMT:
            if s != t:
                add("cross", s, t, ZERO, Z8)
                for _ in range(1 if not chk.thorough else 6):
                    add("cross", s, t, pick_scale(r, "i32"), Z8)
    for t in RAD_SAME:                           # angles
        for e in [x for x in range(-9, 10) if x]:
            if chk.thorough or abs(e) <= 2 or (e + len(t)) % 3 == 0:
                for _ in range(1 if abs(e) > 1 and not chk.thorough else 4):
                    add("same", t, t, pick_scale(r, t), angle(e))
    for s, t in RAD_CROSS:
        for e in [x for x in range(-9, 10) if x]:
            if chk.thorough or abs(e) <= 2 or (e + len(s + t)) % 4 == 0:
                for _ in range(1 if abs(e) > 1 and not chk.thorough else 3):
                    add("cross", s, t, pick_scale(r, "i32"), angle(e))
    # radian part of a compound quantity
    for t in RAD_SAME:
        for e in [x for x in range(-9, 10) if x]:
            if not chk.thorough and abs(e) > 2 and (e + len(t)) % 2:
                continue
            for _ in range(2 if not chk.thorough else 10):
                d = gen.rdim(r)[:7]
                sc = gen.rscale(r)
                vs = gen.vals(r, t, 4)
                A, B = un.qtype(sc, d + (e,), t), un.qtype(sc, d + (0,), t)
                body = (f"type A={A}; type B={B}; for (i,v) in [{','.join(un.lit(t, v) for v in vs)}].into_iter().enumerate() {{ "
                        f"q(id,&format!(\"{{i}}\"),||{{let y:B=A::new(v).into();y}}); }}")
                cases.append(Case(f"c{len(cases)}", body, dict(kind="compound", s=t, a=sc, d=d, e=e, vs=vs)))
    # written with declarators: physical value of the whole expression, and number -> quantity -> number
    sp = [s for s in un.spellings() if un.macro_ok(s.text) and s.u.storage and not s.u.affine and s.u.name != "lumen"]
    angles = [s for s in sp if s.u.dim == angle(1)]
    byd = {}
    for s in sp:
        byd.setdefault(s.u.dim, []).append(s)
    for i in range(80 if not chk.thorough else 500):
        c = r.choice(["ratio", "angle", "anglepow", "arc", "rt"])
        v = [1.0, 0.0, -2.5, 90.0, 1e6, 7.3e-5, 12345.678, -360.0]
        if c == "ratio":
            d = r.choice([x for x in byd if len(byd[x]) > 1])
            x, y = r.choice(byd[d]), r.choice(byd[d])
            expr, true = f"quantity!(v,{x.text})/quantity!(4.0,{y.text})", x.value / y.value / 4
        elif c == "angle":
            x = r.choice(angles); expr, true = f"quantity!(v,{x.text})", x.value
        elif c == "anglepow":
            x = r.choice(angles); e = r.choice([-3, -2, 2, 3])
            expr, true = f"quantity!(v,{x.text}^{e})", x.value ** e
        elif c == "arc":
            x, y = r.choice(angles), r.choice(angles)
            expr, true = f"quantity!(v,{x.text})/quantity!(0.5,{y.text})", x.value / y.value * 2
        else:
            tx = r.choice(["rad", "dimensionless", "m/m", "rad2", "s*Hz", "1", "rad/rad", "N*m/J"])
            expr, true = f"quantity!(v,{tx})", F(1)
            c = "rt:" + tx
        if true == 0 or abs(math.log10(abs(float(true)))) > 250:
            continue
        t = r.choice(["f64", "f64", "f32"])
        if t == "f32":
            if abs(math.log10(abs(float(true)))) > 25:
                continue
            vs = [un.to_f32(z) for z in v]
            import re
            expr = re.sub(r"quantity!\(([^,]*),([^)]*)\)", lambda m: f"quantity!({m[1]},{m[2]},f32)", expr)
        else:
            vs = v
        bare = f"let y:{t}=({expr}).into();y"
        body = f"for (i,v) in [{','.join(un.lit(t, z) for z in vs)}].into_iter().enumerate() {{ probe::v(id,&format!(\"{{i}}\"),||{{{bare}}}); }}"
        cases.append(Case(f"c{len(cases)}", body, dict(kind="expr", s=t, t=t, vs=vs, true=true, text=expr, c=c)))
    for i in range(30 if not chk.thorough else 200):       # integers, number -> quantity -> number
        t = r.choice(RAD_SAME[2:])
        tx = r.choice(["rad", "dimensionless", "m/m", "rad2", "s*Hz", "1", "rad/rad"])
        vs = gen.ivals(r, t, 6)
        bare = f"let y:{t}=quantity!(v,{tx},{t}).into();y"
        body = f"for (i,v) in [{','.join(un.lit(t, z) for z in vs)}].into_iter().enumerate() {{ probe::v(id,&format!(\"{{i}}\"),||{{{bare}}}); }}"
        cases.append(Case(f"c{len(cases)}", body, dict(kind="same", s=t, t=t, a=ZERO, d=Z8, vs=vs)))
    # angle -> dimensionless quantity -> number keeps the residual scale
    for i in range(40 if not chk.thorough else 250):
        t = r.choice(["f64", "f32"]); e = r.choice([-3, -2, -1, 1, 1, 2]); sc = pick_scale(r, t)
        vs = gen.fvals(r, t, 4)
        A, B = un.qtype(sc, angle(e), t), un.qtype(sc, Z8, t)
        body = (f"type A={A}; type B={B}; for (i,v) in [{','.join(un.lit(t, v) for v in vs)}].into_iter().enumerate() {{ "
                f"probe::v(id,&format!(\"{{i}}\"),||{{let y:B=A::new(v).into(); let z:{t}=y.into(); z}}); }}")
        cases.append(Case(f"c{len(cases)}", body, dict(kind="same", s=t, t=t, a=sc, d=Z8, vs=vs)))
    return cases


def run(chk):
    chk.rule = ("(source type, target type, scale, angle exponent / other dimensions) with boundary-directed values; distinct by these; non-trivial = residual scale, "
                "angle part or a change of number type")
    chk.assumptions = ["a change of number type happens in double precision when the unit has a residual scale, truncates toward zero and saturates like `as`",
                       "integer residual scales follow W05 (pi as 355/113, truncation, documented divide-first order near overflow); overflow-checked build"]
    cases = build(chk)
    p = Project("W06", prelude=PRE)
    p.spread(cases, 8)
    p.build()
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    for c in cases:
        m = c.meta
        kind, s = m["kind"], m["s"]
        name = m["text"] + " -> " + m["t"] if kind == "expr" else f"{kind} {s}->{m.get('t', s)} scale{m['a']} dim{m['d']}" + (f" angle^{m['e']}" if kind == "compound" else "")
        if c.id in p.rejected:
            chk.violate("rejected:" + name, "permitted erasure does not compile: " + p.rejected[c.id][0][1], c.body); continue
        o = obs.get(c.id, {})
        for i, v in enumerate(m["vs"]):
            st = o.get(str(i))
            if st is None:
                chk.violate(f"lost:{name} v={v}", f"no result observed {o.get('PANIC')} {p.crashed}", c.body); continue
            chk.saw()
            sig = f"value:{name} v={v!r}"
            if kind == "same" and s in un.INTS:
                n, d, fits = w05.ratio(m["a"], ZERO)
                res = None
                if st[0] == "ok":
                    ty, b = st[1].split(";")
                    res = int(b)
                    if ty != s:
                        chk.violate("type:" + name, st[1], c.body); continue
                else:
                    chk.count("panics")
                why = w05.judge(dict(t=s, a=m["a"], b=ZERO), v, res)
                if why:
                    chk.violate(sig, why, c.body)
                continue
            if st[0] != "ok":
                chk.violate(f"panic:{name} v={v!r}", st[1], c.body); continue
            if kind == "compound":
                q = un.Q(st[1])
                if (q.scale, q.dim, q.t, q.brand) != (m["a"], m["d"] + (0,), s, "()"):
                    chk.violate("type:" + name, st[1], c.body)
                want = str(v) if s in un.INTS else ("nan" if math.isnan(v) else un.bits64(v) if s == "f64" else un.bits32(v))
                if q.bits != want:
                    chk.violate(sig, f"number changed from {v} to {q.num}", c.body)
                continue
            ty, b = st[1].split(";")
            got = un.parse_num(ty, b)
            if ty != m["t"]:
                chk.violate("type:" + name, st[1], c.body); continue
            if kind == "same":
                if m["a"] == ZERO:
                    want = "nan" if math.isnan(v) else un.bits64(v) if s == "f64" else un.bits32(v)
                    if b != want:
                        chk.violate(sig, f"unit-scale erasure changed the number to {got!r}", c.body)
                else:
                    w04.check_value(chk, c.body, sig, v, got, un.scale_value(m["a"]), w04.tol(s, m["a"]), s, name)
            elif kind == "cross":
                why = judge_cross(s, m["t"], m["a"], v, got)
                if why:
                    chk.violate(sig, f"{name}: {v!r} {why}", c.body)
            else:
                if m["c"].startswith("rt:"):
                    if got != v:
                        chk.violate(sig, f"number {v!r} came back as {got!r}", c.body)
                else:
                    w04.check_value(chk, c.body, sig, v, got, m["true"], 40 * un.EPS[s] if s == "f64" else 12 * un.EPS[s], s, name)
        if kind != "same" or m["a"] != ZERO:
            chk.distinct.add(name)
        chk.count("kind_" + kind)
        if len(chk.samples) < 8 and kind in ("cross", "expr", "compound") and len(m["vs"]) > 6:
            chk.samples.append({"case": name, "value": str(m["vs"][6]), "observed": list(o.get("6", ()))})
    return chk.finish(min_events=8000)
