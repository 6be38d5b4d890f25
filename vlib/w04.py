"""W04: float rescaling observed value by value, against the exact ratio of the two scales (80-digit pi)."""
import math
from fractions import Fraction as F
import common, gen, units as un
from common import Project, Case

PRE = "use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,rescale}; use probe::*; #[derive(Clone,PartialEq)] struct BrA;"


def log10scale(s):
    return s[0] * math.log10(2) + s[1] * math.log10(3) + s[2] * math.log10(5) + s[3] * math.log10(math.pi)


def safe(a, b, t):
    """the ratio and every partial product of prime powers is a normal number with margin"""
    d = [x - y for x, y in zip(a, b)]
    lim = 300
    parts = [d[0] * math.log10(2), d[1] * math.log10(3), d[2] * math.log10(5), d[3] * math.log10(math.pi)]
    pos = sum(x for x in parts if x > 0); neg = sum(x for x in parts if x < 0)
    if pos > lim or neg < -lim:
        return False
    return abs(sum(parts)) < 300


def build(chk):
    r = chk.rng
    cases = []
    fn = {"f64": "rescale", "f32": "rescale_f32"}

    def add(a, b, d, t, br="()", how="fn"):
        if not safe(a, b, t):
            return
        cid = f"c{len(cases)}"
        vs = gen.fvals(r, t, 6 if how == "fn" else 3)
        A, B = un.qtype(a, d, t, br), un.qtype(b, d, t, br)
        f = "rescale_f64" if t == "f64" and r.random() < .5 else fn[t]
        body = f"type A={A}; type B={B}; for (i,v) in [{','.join(un.lit(t, v) for v in vs)}].into_iter().enumerate() {{\n"
        body += f" q(id,&format!(\"{{i}}\"),||{{let y:B={f}(A::new(v));y}});\n"
        body += f" q(id,&format!(\"b{{i}}\"),||{{let y:B={f}(A::new(v));let z:A={f}(y);z}});\n}}"
        cases.append(Case(cid, body, {"a": a, "b": b, "d": d, "t": t, "br": br, "vs": vs}))
    n = 260 if not chk.thorough else 2500
    # each single prime, every exponent difference
    for slot in range(4):
        hi = 200 if slot < 3 else 40
        ks = [x for x in range(-hi, hi + 1)]
        if not chk.thorough:
            ks = [x for x in ks if abs(x) <= 12 or x % 5 == 1 or abs(x) in (99, 100, 101, 102, 199, 200, hi)]
        for dlt in ks:
            s = [0, 0, 0, 0]
            b0 = r.randint(max(-200, -dlt - 200) if False else -60, 60)
            a = list(s); b = list(s)
            a[slot] = dlt + b0 if abs(dlt + b0) <= 200 else dlt
            b[slot] = b0 if abs(dlt + b0) <= 200 else 0
            add(tuple(a), tuple(b), gen.rdim(r), "f64")
    # mixed
    for i in range(n):
        t = r.choice(["f64", "f64", "f32"])
        hi = r.choice([12, 30, 60])
        d = gen.rdim(r)
        a, b = gen.rscale(r, hi), gen.rscale(r, hi)
        add(a, b, d, t, r.choice(["()", "()", "BrA"]))
        if i % 10 == 0:
            add(a, a, d, t)
    # decimal scales, both types: all of -30..30
    for p in range(-30, 31, 1 if chk.thorough else 3):
        for t in ("f64", "f32"):
            q = r.randint(-15, 15)
            add((p, 0, p, 0), (q, 0, q, 0), gen.rdim(r), t)
    # rescale! macro with unit texts
    sps = [s for s in un.spellings() if not s.u.affine and s.u.storage and s.u.name != "lumen" and un.macro_ok(s.text)]
    byd = {}
    for s in sps:
        byd.setdefault(s.u.dim, []).append(s)
    mac = []
    for i in range(120 if not chk.thorough else 800):
        d = r.choice(list(byd)); s1, s2 = r.choice(byd[d]), r.choice(byd[d])
        t = r.choice(["f64", "f32"])
        if abs(math.log10(float(s1.value)) - math.log10(float(s2.value))) > 280:
            continue
        cid = f"m{i}"
        vs = [1.0, 3.25, -12345.5, 0.0]
        tt = "" if t == "f64" and r.random() < .6 else "," + t
        body = f"for (i,v) in [{','.join(un.lit(t, v) for v in vs)}].into_iter().enumerate() {{\n"
        body += f" q(id,&format!(\"s{{i}}\"),||<unit!({s1.text},{t})>::new(v));\n"
        body += f" q(id,&format!(\"{{i}}\"),||{{ rescale!(<unit!({s1.text},{t})>::new(v), {s2.text}{tt}) }});\n}}"
        mac.append(Case(cid, body, {"mac": (s1.text, s2.text), "t": t, "vs": vs}))
    return cases + mac


def tol(t, diff):
    """rounding allowance: 1/2 ulp for each elementary multiplication a careful evaluation may use"""
    steps = 8 + sum(max(0, abs(d) - 20) for d in diff[1:])
    return un.EPS["f64"] * steps + (3 * un.EPS["f32"] if t == "f32" else 0)


def check_value(chk, m, sig, v, got, ratio, tl, t, what):
    if math.isnan(v):
        ok = isinstance(got, float) and math.isnan(got)
    elif math.isinf(v):
        ok = got == v
    elif v == 0:
        ok = got == 0 and math.copysign(1, got) == math.copysign(1, v)
    else:
        want = F(v) * ratio
        aw = abs(want)
        if t == "f64":
            mx, mn, sub = F(1.7976931348623157e308), F(2.2250738585072014e-308), F(5e-324)
        else:
            mx, mn, sub = F(3.4028234663852886e38), F(1.1754943508222875e-38), F(1.401298464324817e-45)
        if aw > mx * F(0.999999):
            ok = math.isinf(got) or (not math.isnan(got) and aw <= mx * F(1.000001) and un.rel_err(got, want) <= 1e-5)
        elif math.isinf(got) or math.isnan(got):
            ok = False
        elif aw < mn:
            ok = abs(F(got) - want) <= 2 * sub + F(tl) * aw
        else:
            ok = un.rel_err(got, want) <= tl
    if not ok:
        chk.violate(sig, f"{what}: value {v!r} -> {got!r}, true ratio {float(ratio) if abs(ratio) < 10**300 else ratio}", m)
    return ok


def run(chk):
    chk.rule = ("(scale A, scale B, dimension, f32/f64, brand) with ~26 values each (zeros, infinities, NaN, subnormal, huge, random); "
                "distinct by type pair; non-trivial = scales differ")
    chk.assumptions = ["ratios whose prime-power partial products stay within the range of f64 (|log10| < 300)",
                       "tolerance: 8 half-ulps plus one per prime factor beyond 20"]
    cases = build(chk)
    p = Project("W04", prelude=PRE)
    p.spread(cases, 8)
    p.build()
    byid = {c.id: c for c in cases}
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    maxerr = 0.0
    for c in cases:
        m = c.meta
        name = f"{m['a']}->{m['b']} dim{m['d']} {m['t']} {m['br']}" if "a" in m else f"rescale!({m['mac'][0]} -> {m['mac'][1]}, {m['t']})"
        if c.id in p.rejected:
            chk.violate("rejected:" + name, "legitimate rescale does not compile: " + p.rejected[c.id][0][1], c.body); continue
        o = obs.get(c.id, {})
        if "PANIC" in o or not o:
            chk.violate("panic:" + name, str(o), c.body); continue
        for i, v in enumerate(m["vs"]):
            st = o.get(str(i))
            if not st or st[0] != "ok":
                chk.violate(f"panic:{name} v={v!r}", f"{st}", c.body); continue
            q = un.Q(st[1])
            if "mac" in m:
                src = un.Q(o[f"s{i}"][1])
                a, b, d = src.scale, un_scale(m["mac"][1], m, p, o, q), src.dim
                s1, s2 = SPM[m["mac"][0]], SPM[m["mac"][1]]
                if q.dim != s2.u.dim or q.t != m["t"]:
                    chk.violate("type:" + name, f"result type {st[1]}", c.body)
                ratio = un.scale_value(a) / un.scale_value(q.scale)
                true = s1.value / s2.value
                if un.rel_err(float(1), ratio / true) > 1e-12:
                    chk.violate("ratio:" + name, f"types say {float(ratio)}, units say {float(true)}", c.body)
                tl = tol(m["t"], [x - y for x, y in zip(a, q.scale)])
            else:
                if q.scale != m["b"] or q.dim != m["d"] or q.t != m["t"] or q.brand != m["br"]:
                    chk.violate("type:" + name, f"result type {st[1]}", c.body); continue
                ratio = un.scale_value(m["a"]) / un.scale_value(m["b"])
                tl = tol(m["t"], [x - y for x, y in zip(m["a"], m["b"])])
            got = q.num
            check_value(chk, m, f"value:{name} v={v!r}", v, got, ratio, tl, m["t"], name)
            if "a" in m and m["a"] == m["b"] and un.Q(st[1]).bits != (un.bits64(v) if m["t"] == "f64" else un.bits32(v)) and not math.isnan(v):
                chk.violate(f"identity:{name} v={v!r}", f"same-scale rescale changed the bits to {q.bits}", c.body)
            if v and not math.isnan(v) and not math.isinf(v) and got and not math.isinf(got):
                maxerr = max(maxerr, min(1, un.rel_err(got, F(v) * ratio))) if abs(got) > 1e-300 and m["t"] == "f64" else maxerr
            bk = o.get(f"b{i}")
            if bk and bk[0] == "ok" and v and not math.isnan(v) and not math.isinf(v) and not math.isinf(got) and abs(got) > (1e-290 if m["t"] == "f64" else 1e-36) and abs(v) > (1e-290 if m["t"] == "f64" else 1e-36):
                w = un.Q(bk[1]).num
                if math.isinf(w) and abs(v) > (1.79e308 if m["t"] == "f64" else 3.4e38):
                    pass
                elif math.isinf(w) or math.isnan(w) or un.rel_err(w, F(v)) > 2 * tl:
                    chk.violate(f"roundtrip:{name} v={v!r}", f"there and back gives {w!r}", c.body)
            chk.saw(n=1)
        nontriv = "mac" in m or m["a"] != m["b"]
        if nontriv:
            chk.distinct.add(name)
        if len(chk.samples) < 6 and nontriv:
            chk.samples.append({"case": name, "value": m["vs"][2 if "a" in m else 0], "observed": list(o[str(2 if "a" in m else 0)])})
    chk.coverage["max_relative_error_f64"] = maxerr
    return chk.finish(min_events=3000)


SPM = {s.text: s for s in un.spellings()}


def un_scale(text, m, p, o, q):
    return q.scale
