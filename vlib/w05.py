"""W05: integer rescaling, every observed result judged by exact rational arithmetic."""
from fractions import Fraction as F
import common, gen, units as un
from common import Project, Case

PRE = "use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,rescale}; use probe::*; #[derive(Clone,PartialEq)] struct BrA;"
LIM = 2**127 - 1


def ratio(a, b):
    """reduced (num,den) with pi=355/113, and whether the unreduced products fit i128"""
    num = den = 1
    for base, x, y in zip(((2, 1), (3, 1), (5, 1), (355, 113)), a, b):
        e = x - y
        n, d = (base[0] ** e, base[1] ** e) if e >= 0 else (base[1] ** -e, base[0] ** -e)
        num *= n; den *= d
    f = F(num, den)
    return f.numerator, f.denominator, (num <= LIM and den <= LIM)


def trunc(f):
    return int(f) if f >= 0 else -int(-f)


def build(chk):
    r = chk.rng
    cases, seen = [], set()
    ts = list(un.INTS)

    def add(a, b, t, br="()", mac=None):
        n, d, fits = ratio(a, b)
        if not fits and r.random() < .8:
            return
        key = (a, b, t)
        if key in seen:
            return
        seen.add(key)
        lo, hi = un.INTS[t]
        near = [hi // n, hi * d // n, d, n, hi // d, hi - d, n * 3 + 1, 7 * d, hi // n * d]
        near = [x for x in near if abs(x) < 2**129]
        vs = gen.ivals(r, t, 10, near)
        dm = gen.rdim(r)
        A, B = un.qtype(a, dm, t, br), un.qtype(b, dm, t, br)
        cid = f"c{len(cases)}"
        body = f"type A={A}; type B={B}; for v in [{','.join(un.lit(t, v) for v in vs)}] {{ q(id,&format!(\"{{v}}\"),||{{let y:B=rescale_{t}(A::new(v));y}}); }}"
        cases.append(Case(cid, body, {"a": a, "b": b, "t": t, "br": br, "d": dm, "vs": vs}))
    dec = [-9, -6, -3, -2, -1, 0, 1, 2, 3, 6, 9]
    named = [(2, 1, 1, 0), (4, 2, 2, 0), (7, 3, 2, 0), (8, 4, 3, 0), (0, -2, 1, 0), (-2, -2, -1, 1), (-3, 0, -2, 1),
             (1, 0, 0, 1), (-4, -3, -2, 1), (-6, -4, -3, 1), (7, 2, 5, 0), (0, 0, 0, 0), (-3, 0, -4, 0)]
    for t in ts:
        for _ in range(18 if not chk.thorough else 120):
            x, y = r.choice(dec), r.choice(dec)
            add((x, 0, x, 0), (y, 0, y, 0), t, r.choice(["()", "BrA"]))
        for _ in range(14 if not chk.thorough else 100):
            add(r.choice(named), r.choice(named), t)
        for _ in range(26 if not chk.thorough else 200):
            h = r.choice([2, 4, 8, 20])
            a = (r.randint(-h, h), r.randint(-h // 2, h // 2), r.randint(-h // 2, h // 2), r.choice([0, 0, 0, 1, -1, 2]))
            b = (r.randint(-h, h), r.randint(-h // 2, h // 2), r.randint(-h // 2, h // 2), r.choice([0, 0, 0, 1, -1, 2]))
            add(a, b, t)
    for e in (100, 101, 110, 126, -100, -101, -126):
        for t in ("i128", "u128", "i64", "u8"):
            add((e, 0, 0, 0), (0, 0, 0, 0), t)
    for e in (9, 10, 12, -9, -11):
        add((0, 0, 0, e), (0, 0, 0, 0), "i128")
    return cases


def judge(m, v, res):
    """None if fine, else explanation"""
    t = m["t"]
    lo, hi = un.INTS[t]
    n, d, fits = ratio(m["a"], m["b"])
    true = F(v * n, d)
    tr = trunc(true)
    if res is None:      # panicked
        if lo <= tr <= hi and fits:
            return f"panicked although the result {tr} fits {t}"
        return None
    if not fits and res == 0 and tr == 0:
        return None
    if not (lo <= res <= hi):
        return f"{res} is not a {t}"
    if lo <= v * n <= hi:
        if res != tr:
            return f"gave {res}, exact truncated result is {tr} (ratio {n}/{d})"
    elif abs(F(res) - true) >= max(n, 1) or abs(res) > abs(true):
        return f"gave {res}, true value {float(true):.6g} (ratio {n}/{d})"
    return None


def run(chk):
    chk.rule = ("(scale A, scale B, integer type) with boundary-directed values (type limits, +-2 around MAX/num, MAX*den/num, den, num, random widths, both signs); "
                "distinct by (A,B,type); non-trivial = ratio is not one")
    chk.assumptions = ["overflow-checked build", "pi is 355/113 by documentation; the divide-first order near overflow is documented, so there the result may fall short by less than the ratio's numerator",
                       "ratios whose unreduced numerator and denominator exceed i128 may panic"]
    cases = build(chk)
    p = Project("W05", prelude=PRE)
    p.spread(cases, 8)
    p.build()
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    pan = exact = approx = 0
    for c in cases:
        m = c.meta
        name = f"{m['a']}->{m['b']} {m['t']}"
        if c.id in p.rejected:
            chk.violate("rejected:" + name, p.rejected[c.id][0][1], c.body); continue
        o = obs.get(c.id, {})
        n, d, fits = ratio(m["a"], m["b"])
        for v in m["vs"]:
            st = o.get(str(v))
            if st is None:
                chk.violate(f"lost:{name} v={v}", f"no result observed {p.crashed}", c.body); continue
            res = None
            if st[0] == "ok":
                q = un.Q(st[1])
                if (q.scale, q.dim, q.t, q.brand) != (m["b"], m["d"], m["t"], m["br"]):
                    chk.violate("type:" + name, st[1], c.body)
                res = q.num
            else:
                pan += 1
            if res is not None and un.INTS[m["t"]][0] <= v * n <= un.INTS[m["t"]][1]:
                exact += 1
            elif res is not None:
                approx += 1
            why = judge(m, v, res)
            if why:
                chk.violate(f"value:{name} v={v}", f"rescale_{m['t']} {m['a']}->{m['b']} of {v}: {why}" + ("" if res is not None else f" [{st[1]}]"), c.body)
            chk.saw()
        if (n, d) != (1, 1):
            chk.distinct.add(name)
        if len(chk.samples) < 8 and (n, d) != (1, 1):
            v = m["vs"][len(m["vs"]) // 3]
            chk.samples.append({"case": name, "ratio": f"{n}/{d}", "value": v, "observed": list(o.get(str(v), ()))})
    chk.coverage.update(panics_observed=pan, exact_path=exact, near_overflow_path=approx)
    return chk.finish(min_events=5000)
