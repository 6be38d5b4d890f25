"""W07: unit expressions, observed through quantity!/unit!/value!/compute and run-time text, against their algebra."""
from fractions import Fraction as F
import common, units as un, expr as ex
from common import Project, Case, rs_str

PRE = """use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity,value}; use probe::*;
#[derive(Clone,PartialEq)] struct BrA;
fn rt(t:&str)->String{ match whippyunits::serialization::parse_ucum_unit(t) { Ok((d,s)) => format!("{:?};{:?}", s.0, d.0), Err(e)=>format!("error {:?}",e) } }
"""
NUM = "-?\\d+"


def usable(fs, lim=120):
    t, sw = ex.flog(fs)
    if sw > lim or abs(t) > lim:
        return False
    d = ex.fdim(fs)
    return max(abs(x) for x in d) <= 60 and sum(abs(n) for _, n in fs) < 200


def gen(chk, n):
    r = chk.rng
    sps = [s for s in un.spellings(names=True) if not s.u.affine and s.u.name != "lumen" and un.macro_ok(s.text)]
    plain = [s for s in sps if s.p == 0]
    stor = [s for s in sps if s.u.storage]
    bag = []

    def pick_any():
        if bag and r.random() < .5:
            return bag.pop()
        return r.choice(r.choice([sps, plain, plain, stor]))

    def pick_st():
        return r.choice(stor)
    out = []
    bag = list(plain); r.shuffle(bag)
    while len(out) < n:
        p = r.choice([pick_any, pick_any, pick_st])
        e = ex.rand(r, p, r.choice([1, 2, 2, 3]))
        fs = ex.factors(e)
        if e.k == "u" and r.random() < .5:
            continue
        if not usable(fs):
            continue
        out.append((e, fs))
    return out


def run(chk):
    chk.rule = ("a random expression tree over catalogue spellings (depth <= 3; product, quotient, power incl. negative, grouping, powers of ten, "
                "1/x), rendered in two notations and observed via quantity!, unit!, value! and run-time text; distinct by text; "
                "non-trivial = more than one factor")
    chk.assumptions = ["documented precedence: products bind tighter than quotients", "no affine units in expressions",
                       "total |log10| of all factors below 120", "tolerance 1e-12 relative for nonstorage units (the stored number is a double)"]
    r = chk.rng
    exprs = gen(chk, 400 if not chk.thorough else 3500)
    cases, rtonly = [], []
    for i, (e, fs) in enumerate(exprs):
        t1 = ex.render(r, e, "trad"); t2 = ex.render(r, e, r.choice(["compact", "mixed"])); t3 = ex.render(r, e, "compact", 0)
        st = ex.all_storage(fs)
        v = r.choice([1.0, 2.5, 12.0, 0.125])
        tt = r.choice(["f64"] * 5 + ["f32"]); br = r.choice(["()"] * 5 + ["BrA"])
        if tt == "f32" and abs(ex.flog(fs)[0]) > 25:
            tt = "f64"
        suf = "" if (tt, br) == ("f64", "()") else (", " + tt if br == "()" else f", {tt}, {br}")
        vv = f"{v!r}" if tt == "f64" else f"{v!r}f32"
        body = f" q(id,\"q1\",||quantity!({vv}, {t1}{suf}));\n q(id,\"q2\",||quantity!({vv}, {t2}{suf}));\n"
        body += f" v(id,\"val\",||value!(quantity!({vv}, {t1}{suf}), {t2}{suf}));\n"
        if st:
            body += f" ev(&[id,\"u1\",\"ok\",&ty::<unit!({t1}{suf})>()]); ev(&[id,\"u2\",\"ok\",&ty::<unit!({t2}{suf})>()]);\n"
        body += "".join(f" s(id,\"r{k}\",||rt({rs_str(t)}));\n" for k, t in enumerate((t1, t2, t3)))
        cases.append(Case(f"c{i}", body, dict(fs=fs, t=(t1, t2, t3), st=st, v=v, tt=tt, br=br)))
    # run-time-only bulk
    for i, (e, fs) in enumerate(gen(chk, 3000 if not chk.thorough else 60000)):
        rtonly.append((fs, [ex.render(r, e, s, r.choice([0, .1, .3])) for s in ("trad", "compact", "mixed")]))
    p = Project("W07", prelude=PRE)
    K = 8
    for k in range(K):
        chunk = rtonly[k::K]
        rc = [Case(f"r{k}", " for (i,t) in include_str!(%s).lines().enumerate() { s(id,&i.to_string(),||rt(t)); }" % rs_str(f"{p.dir}/rt{k}.txt"), chunk)]
        with open(f"{p.dir}/rt{k}.txt", "w") as f:
            f.write("".join(t + "\n" for fs, ts in chunk for t in ts))
        p.add_bin(f"b{k}", cases[k::K] + rc)
    p.build()
    chk.log(f"built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]

    def rt_unit(x):
        if x[0] != "ok" or x[1].startswith("error"):
            return None
        s, d = x[1].split(";")
        return tuple(eval(s)), tuple(eval(d))

    def check_unit(text, fs, scale, d, how, exact=True):
        if d != ex.fdim(fs):
            chk.violate(f"dim:{how}:{text}", f"{how} `{text}` has dimension {d}, algebra says {ex.fdim(fs)}")
            return False
        if exact and scale[3] != sum(n * (s != 10 and s.u.pi) for s, n in fs):
            chk.violate(f"scale:{how}:{text}", f"{how} `{text}` has scale {scale}: wrong power of pi")
            return False
        if exact and un.scale_value(scale) != ex.fmag(fs):
            chk.violate(f"scale:{how}:{text}", f"{how} `{text}` has scale {scale} = {float(un.scale_value(scale))}, algebra says {float(ex.fmag(fs))}")
            return False
        return True
    for c in cases:
        m = c.meta; fs = m["fs"]; t1, t2, t3 = m["t"]
        name = f"`{t1}` | `{t2}`"
        if c.id in p.rejected:
            chk.violate(f"rejected:{t1}", f"legitimate expression does not compile: {name}: {p.rejected[c.id][0][1][:200]}", c.body); continue
        if c.id in p.crashed or "PANIC" in obs.get(c.id, {"PANIC": 1}):
            chk.violate(f"crash:{t1}", f"{name}: {p.crashed.get(c.id)} {obs.get(c.id, {}).get('PANIC')}", c.body); continue
        o = obs[c.id]
        tol = (1e-12 if m["tt"] == "f64" else 1e-6) + ex.loose(fs)
        want = F(m["v"]) * ex.fmag(fs)
        units = {}
        for k in ("q1", "q2"):
            text = t1 if k == "q1" else t2
            if o[k][0] != "ok":
                chk.violate(f"panic:quantity!:{text}", f"quantity!({m['v']}, {text}) panicked: {o[k]}"); continue
            q = un.Q(o[k][1])
            units[k] = (q.scale, q.dim)
            if (q.t, q.brand) != (m["tt"], m["br"]):
                chk.violate(f"type:quantity!:{text}", f"quantity!({text}, {m['tt']}, {m['br']}) has type {o[k][1]}")
            if check_unit(text, fs, q.scale, q.dim, "quantity!", m["st"]):
                if m["st"] and q.num != m["v"]:
                    chk.violate(f"value:quantity!:{text}", f"storage unit, number {m['v']} stored as {q.num}")
                if un.rel_err(1.0, q.si / want) > tol:
                    chk.violate(f"si:quantity!:{text}", f"quantity!({m['v']}, {text}) amounts to {float(q.si)}, should be {float(want)} in SI")
            chk.saw(n=1)
        if len(units) == 2 and units["q1"] != units["q2"]:
            chk.violate(f"notation:{t1}", f"{name} denote different units {units}")
        x = o["val"]
        if x[0] != "ok" or x[1].split(";")[0] != m["tt"] or un.rel_err(un.parse_num(m["tt"], x[1].split(";")[1]), F(m["v"])) > 2 * tol:
            chk.violate(f"value!:{t1}", f"value!(quantity!({m['v']},{t1}),{t2}) = {x}")
        chk.saw(n=1)
        if m["st"]:
            for k, text in (("u1", t1), ("u2", t2)):
                u, t, br = o[k][1].split(";")
                e = tuple(int(z) for z in u.split(","))
                check_unit(text, fs, e[:4], e[4:], "unit!")
                if (t, br) != (m["tt"], m["br"]):
                    chk.violate(f"type:unit!:{text}", f"{o[k][1]}")
                chk.saw(n=1)
        for k, text in enumerate((t1, t2, t3)):
            ru = rt_unit(o[f"r{k}"])
            if ru is None:
                chk.violate(f"runtime:{text}", f"run-time text `{text}` is not read: {o[f'r{k}']}"); continue
            check_unit(text, fs, ru[0], ru[1], "run-time", m["st"])
            if "q1" in units and ru != units["q1"]:
                chk.violate(f"ct-vs-rt:{text}", f"`{text}` is {units['q1']} at compile time, {ru} at run time")
            chk.saw(n=1)
        if len(fs) > 1:
            chk.distinct.add(t1)
        if len(chk.samples) < 6 and len(fs) > 2:
            chk.samples.append({"expressions": [t1, t2, t3], "observed": {k: list(v) for k, v in list(o.items())[:4]}})
    for k in range(K):
        o = obs.get(f"r{k}", {})
        if f"r{k}" in p.crashed:
            chk.violate(f"crash:rt:{len(o)}", f"run-time reading crashed: {p.crashed[f'r{k}']}", rtonly[k::K][len(o) // 3][1])
        i = 0
        for fs, ts in rtonly[k::K]:
            for t in ts:
                x = o.get(str(i)); i += 1
                if x is None:
                    continue
                ru = rt_unit(x)
                if ru is None:
                    chk.violate(f"runtime:{t}", f"run-time text `{t}` is not read: {x}"); continue
                check_unit(t, fs, ru[0], ru[1], "run-time", ex.all_storage(fs))
                chk.saw(n=1)
            if len(fs) > 1:
                chk.distinct.add(ts[0])
    chk.coverage["runtime_expressions"] = len(rtonly) * 3
    return chk.finish(min_events=5000)
