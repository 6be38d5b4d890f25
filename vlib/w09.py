"""W09: the same declaration in every form, observed and compared form against form."""
import json, math
from fractions import Fraction as F
import common, units as un
from common import Project, Case, rs_str

PRE = """use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity}; use probe::*;
use whippyunits::default_declarators::*; #[derive(Clone,PartialEq)] struct BrA;
fn rd<Q: Reflect + serde::de::DeserializeOwned>(_: &Q, t: &str) -> String { match serde_json::from_str::<Q>(t) { Ok(q) => show(&q), Err(e) => format!("error {e}") } }
"""
CULIT = "#[culit::culit(whippyunits::default_declarators::literals)]"
SMALL = {"i8": 100, "u8": 200, "i16": 30000, "u16": 60000}


def trunc(f):
    return int(f) if f >= 0 else -int(-f)


def int_ok(got, want):
    """got is want truncated toward zero, where want is only known to double precision"""
    s = abs(want) * F(1, 10**12) + F(1, 10**12)
    return got in (trunc(want - s), trunc(want), trunc(want + s)) or abs(F(got) - want) <= s


def run(chk):
    chk.rule = ("(unit spelling, declaration form, storage type, number): quantity! with and without storage type and brand, methods on f64/i32/i64, "
                "float/integer literals plain and typed, run-time text; all forms of a unit compared on unit type and stored value; distinct by (spelling, form)")
    chk.assumptions = ["floats agree to 1e-12 (f32 1e-6) relative; integers are the converted value truncated toward zero",
                       "integer declarations are kept inside the storage type's range", "forms a unit is not offered in are skipped (counted)"]
    r = chk.rng
    sps = [s for s in un.spellings(names=True) if un.macro_ok(s.text)]
    pick = [s for s in sps if s.p == 0] + r.sample([s for s in sps if s.p != 0], 150 if not chk.thorough else 900)
    cases = []

    def add(sp, form, obsv, attr="", req=False):
        """obsv: [(key, T, number, closure)]"""
        body = "".join(f" q(id,\"{k}\",||{code});\n" for k, T, v, code in obsv)
        cases.append(Case(f"k{len(cases)}", body, (sp, form, obsv, req), attr=attr))
    def large(sp):
        """a count that an i32 cannot hold, before or after conversion, but a double can"""
        k = float(abs(sp.value)) or 1.0
        return max(int(r.randint(2**33, 2**49) / max(k, 1.0)), 3)

    for sp in pick:
        t = sp.text
        stor = sp.u.storage and not sp.u.affine
        fl = [r.choice(["2.5", "0.1", "1.0", "37.7", "1234567.891", "3.0"]), r.choice(["12.5", "0.001", "98.6", "7.0"])]
        neg = "-40.25"
        n1, n2 = r.randint(2, 120), r.randint(100, 9000)
        cf = [("f0", "f64", fl[0], f"quantity!({fl[0]}, {t})"), ("f1", "f64", fl[1], f"quantity!({fl[1]}, {t})"), ("fn", "f64", neg, f"quantity!({neg}, {t})"),
              ("e0", "f64", fl[0], f"quantity!({fl[0]}, {t}, f64)"), ("b0", "f64", fl[0], f"quantity!({fl[0]}, {t}, f64, BrA)"),
              ("p0", "f64", fl[1], f"quantity!({fl[1]}, ({t})^1)")]
        add(sp, "quantity!", cf, req=True)
        ci = [("f32", "f32", fl[0], f"quantity!({fl[0]}f32, {t}, f32)"), ("f32b", "f32", fl[0], f"quantity!({fl[0]}f32, {t}, f32, BrA)")]
        for T in un.INTS:
            v = r.randint(1, SMALL.get(T, 9000))
            lo, hi = un.INTS[T]
            # the stored number must fit
            q = (F(v) + sp.u.off) * sp.value
            ci.append((T, T, str(v), f"quantity!({v}{T}, {t}, {T})"))
            if not stor and not sp.u.affine and T in ("i64", "u64", "i128", "u128", "isize", "usize"):
                w = large(sp)
                ci.append((T + "g", T, str(w), f"quantity!({w}{T}, {t}, {T})"))
            if stor and T[0] == "i":
                w = r.choice([hi, lo + 1, -v, hi // 3])
                ci.append((T + "x", T, str(w), f"quantity!({un.lit(T, w)}, {t}, {T})"))
        add(sp, "quantity! with type", ci, req=True)
        # methods
        pn = {e: n for n, s, e in un.PREFIXES}.get(sp.p, "")
        m = f"{pn}{sp.u.plural}"
        add(sp, "method f64", [("m0", "f64", fl[0], f"{fl[0]}f64.{m}()"), ("m1", "f64", neg, f"({neg}f64).{m}()")], req=True)
        add(sp, "method i32", [("m0", "i32", str(n1), f"{n1}i32.{m}()"), ("m1", "i32", str(-n2), f"(-{n2}i32).{m}()")] if not sp.u.affine else
            [("m0", "f64", str(n1), f"{n1}i32.{m}()")])
        if stor:
            n3, n4 = r.randint(-2**63 + 1, 2**63 - 1) >> r.randint(0, 30), r.randint(-2**31 + 1, 2**31 - 1)
            add(sp, "method i64", [("m0", "i64", str(n3), f"({n3}i64).{m}()"), ("m1", "i64", str(n2), f"{n2}i64.{m}()")])
            add(sp, "method i32", [("m0", "i32", str(n4), f"({n4}i32).{m}()")])
        if not stor and not sp.u.affine:
            n3 = large(sp)
            add(sp, "method i64", [("m0", "i64", str(n2), f"{n2}i64.{m}()"), ("m1", "i64", str(-n1), f"(-{n1}i64).{m}()"), ("m2", "i64", str(n3), f"{n3}i64.{m}()"), ("m3", "i64", str(-n3), f"(-{n3}i64).{m}()")])
            add(sp, "quantity! i32", [("m0", "i32", str(n2), f"quantity!({n2}i32, {t})")])
            add(sp, "quantity! i64", [("m0", "i64", str(n2), f"quantity!({n2}i64, {t})")])
        # literals
        if t[0] not in "eE":
            named = sp.kind == "symbol"
            add(sp, "literal", [("l0", "f64", fl[0], f"{fl[0]}{t}"), ("l1", "f64", fl[1], f"{fl[1]}{t}")], CULIT, named)
            add(sp, "literal typed", [("l0", "f32", fl[0], f"{fl[0]}{t}_f32"), ("l1", "f64", fl[1], f"{fl[1]}{t}_f64")], CULIT, named)
            add(sp, "int literal", [("l0", "i32", str(n1), f"{n1}{t}")], CULIT, named)
            add(sp, "int literal typed", [("l" + T, T, str(v), f"{v}{t}_{T}") for T in ("i32", "i64", "u32", "u64")
                                            for v in (r.choice([r.randint(1, 9000), r.randint(1, un.INTS[T][1] >> r.randint(0, 24)) if stor else r.randint(1, 2**31 // 100)]),)], CULIT, named)
        # run-time text
        body = f" s(id,\"r\",||rd(&quantity!({fl[0]}, {t}), {rs_str(json.dumps({'value': float(fl[0]), 'unit': t}))}));\n"
        body += f" s(id,\"rn\",||rd(&quantity!({fl[0]}, {t}), {rs_str(json.dumps({'unit': t, 'value': float(neg)}))}));\n"
        cases.append(Case(f"k{len(cases)}", body, (sp, "text", [("r", "f64", fl[0], t), ("rn", "f64", neg, t)], True)))
    p = Project("W09", prelude=PRE, deps='culit = "0.6.0"\nserde_json = "1"\nserde = "1"\n')
    p.spread(cases, 8)
    p.build(max_rounds=6)
    chk.log(f"{len(cases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    ref = {}
    for c in cases:
        sp, form, obsv, req = c.meta
        if form == "quantity!" and c.id not in p.rejected:
            x = obs.get(c.id, {}).get("f0")
            if x and x[0] == "ok":
                q = un.Q(x[1])
                ref[sp.text] = (q.scale, q.dim)
    for c in cases:
        sp, form, obsv, req = c.meta
        if c.id in p.rejected:
            if req:
                chk.violate(f"rejected:{form}:{sp.text}", f"{form} `{sp.text}` does not compile: {p.rejected[c.id][0][1][:200]}", c.body)
            chk.count("not_offered_" + form.replace(" ", "_"))
            continue
        if c.id in p.crashed or sp.text not in ref:
            chk.violate(f"crash:{form}:{sp.text}", f"{p.crashed.get(c.id)} {obs.get(c.id)}", c.body); continue
        scale, d = ref[sp.text]
        unit = un.scale_value(scale)
        tol = 1e-12 + un.LOOSE.get(sp.u.name, 0)
        for k, T, num, code in obsv:
            x = obs[c.id].get(k)
            name = f"{form} `{code}` ({sp.text})"
            if not x or x[0] != "ok" or x[1].startswith("error"):
                chk.violate(f"fail:{name}", f"{name}: {x}", c.body); continue
            q = un.Q(x[1])
            chk.saw(n=1)
            if (q.scale, q.dim) != (scale, d):
                chk.violate(f"unit:{name}", f"{name} has unit {q.scale} {q.dim}, quantity!(.., {sp.text}) has {scale} {d}", c.body); continue
            if q.t != T or q.brand != ("BrA" if "BrA" in code else "()"):
                chk.violate(f"type:{name}", f"{name} has type {x[1]}, expected storage type {T}", c.body); continue
            v = F(num)
            want = (v + sp.u.off) * sp.value / unit
            if sp.u.storage and not sp.u.affine:
                vv = F(un.to_f32(float(v))) if T == "f32" else F(float(v)) if T == "f64" else v
                if F(q.num) != vv:
                    chk.violate(f"stored:{name}", f"{name} stores {q.num}, not the number given", c.body)
            elif T in un.INTS:
                lo, hi = un.INTS[T]
                if lo <= want <= hi and not int_ok(q.num, want):
                    chk.violate(f"value:{name}", f"{name} stores {q.num}, the converted value is {float(want)}", c.body)
            else:
                base = max(abs(want), abs(sp.u.off * sp.value / unit))
                if abs(F(q.num) - want) > (tol if T == "f64" else 1e-6) * base:
                    chk.violate(f"value:{name}", f"{name} stores {q.num}, the converted value is {float(want)}", c.body)
        chk.distinct.add(f"{sp.text}:{form}")
        if len(chk.samples) < 8 and r.random() < .01:
            chk.samples.append({"unit": sp.text, "form": form, "observed": {k: v[1] for k, v in list(obs[c.id].items())[:3]}})
    return chk.finish(min_events=4000)
