"""W12: serialize / read back, judged by an independent reader of the written JSON and by physical value."""
import json, math
from fractions import Fraction as F
import common, gen, units as un, expr as ex, reader
from common import Project, Case

PRE = """use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::serialization::*; use probe::*; #[derive(Clone,PartialEq)] struct BrA;
fn js<Q: serde::Serialize>(q: &Q) -> String { serde_json::to_string(q).unwrap_or_else(|e| format!("error {e}")) }
fn rd<Q: Reflect + serde::de::DeserializeOwned>(t: &str) -> String { match serde_json::from_str::<Q>(t) { Ok(q) => show(&q), Err(e) => format!("error {e}") } }
fn rv<Q: Reflect + serde::de::DeserializeOwned>(t: &str) -> String { match serde_json::from_str::<serde_json::Value>(t).and_then(serde_json::from_value::<Q>) { Ok(q) => show(&q), Err(e) => format!("error {e}") } }
fn rr<Q: Reflect + serde::de::DeserializeOwned, R: std::io::Read>(t: R) -> String { match serde_json::from_reader::<_, Q>(t) { Ok(q) => show(&q), Err(e) => format!("error {e}") } }
"""
SER = ["f64", "f32", "i8", "i16", "i32", "u8", "u16", "u32"]
EXTRA = """
#[derive(serde::Serialize, serde::Deserialize)] struct Rec<Q> { a: Q, b: Vec<Q>, c: Option<Q> }
fn rec<Q: Reflect<T=f64> + serde::Serialize + serde::de::DeserializeOwned>(f: impl Fn() -> Q) -> String {
  let r = Rec { a: f(), b: vec![f(), f()], c: Some(f()) };
  let t = serde_json::to_string_pretty(&r).unwrap();
  match serde_json::from_str::<Rec<Q>>(&t) { Ok(r) => format!("{}|{}|{}|{}", show(&r.a), show(&r.b[0]), show(&r.b[1]), show(&r.c.unwrap())), Err(e) => format!("error {e}") } }
"""


def run(chk):
    chk.rule = ("(dimension vector, scale, storage type, brand, value): the written JSON is read independently and read back by the library into the same and other scales; "
                "distinct by (dimension, scale, type); non-trivial = dimension and scale not all zero")
    chk.assumptions = ["finite values whose value in coherent SI units is a normal double", "1e-12 relative (a few roundings)", "reading back exists for f64 storage only"]
    r = chk.rng
    sps = [s for s in un.spellings() if s.u.storage and not s.u.affine and s.u.name != "lumen"]
    cases = []

    scale_of = ex.fscale
    n = 700 if not chk.thorough else 9000
    for i in range(n):
        c = r.random()
        if c < .35:
            fs = []
            for _ in range(r.randint(1, 3)):
                fs.append((r.choice(sps), r.choice([1, 1, 2, -1, -2, 3])))
            d, a = ex.fdim(fs), scale_of(fs)
        elif c < .6:
            d, a = tuple(r.choice([0, 0, 0, 1, -1, 2, -2, 3]) for _ in range(8)), gen.rscale(r)
        elif c < .7:
            d = [0] * 8; d[r.randrange(8)] = r.choice([1, -1, 2, 3, -3, -4, 9, 17, -25]); d, a = tuple(d), gen.rscale(r)
        elif c < .8:
            d, a = (0,) * 8, gen.rscale(r)
        elif c < .9:
            d, a = tuple(r.randint(-30, 30) for _ in range(8)), gen.rscale(r)
        else:
            d, a = tuple(r.randint(-32, 32) for _ in range(8)), (r.randint(-60, 60), r.randint(-40, 40), r.randint(-40, 40), r.randint(-8, 8))
        t = r.choice(["f64"] * 5 + SER)
        br = r.choice(["()", "()", "()", "BrA"])
        vs = gen.vals(r, t, 5)
        vs = r.sample(vs, min(10, len(vs))) + ([-2.5, 3.0] if t in un.FLOATS else [7])
        ok = []
        for v in vs:
            if t in un.FLOATS and not math.isfinite(v):
                continue
            si = F(v) * un.scale_value(a)
            if si and not -290 < ex.log10(abs(si)) < 300:
                continue
            ok.append(v)
        if not ok:
            continue
        others = []
        for _ in range(2):
            b = r.choice([(0, 0, 0, 0), tuple(x + y for x, y in zip(a, r.choice([(3, 0, 3, 0), (-3, 0, -3, 0), (2, 1, 1, 0), (0, 0, 0, 1), (1, -1, 2, 0)]))), gen.rscale(r)])
            others.append(b)
        A = un.qtype(a, d, t, br)
        AF = un.qtype(a, d, "f64", br)
        body = f"type A={A}; type AF={AF};" + "".join(f" type B{k}={un.qtype(b, d)};" for k, b in enumerate(others))
        body += f" for (i,v) in [{','.join(un.lit(t, v) for v in ok)}].into_iter().enumerate() {{ let q = A::new(v); let j = js(&q); s(id,&format!(\"j{{i}}\"),||j.clone());\n"
        body += " s(id,&format!(\"a{i}\"),||rd::<AF>(&j)); s(id,&format!(\"v{i}\"),||rv::<AF>(&j)); s(id,&format!(\"r{i}\"),||rr::<AF,_>(j.as_bytes()));\n"
        body += "".join(f" s(id,&format!(\"b{k}:{{i}}\"),||rd::<B{k}>(&j));" for k in range(len(others)))
        if br == "()":
            body += " s(id,&format!(\"k{i}\"),||serialize_to_json(&q).unwrap()); s(id,&format!(\"u{i}\"),||to_ucum_unit(&q));"
        body += "}\n"
        if t == "f64":
            body += f" s(id,\"rec\",||rec(|| A::new({un.lit('f64', ok[0])})));"
        cases.append(Case(f"c{len(cases)}", body, dict(d=d, a=a, t=t, br=br, vs=ok, others=others)))
    p = Project("W12", prelude=PRE + EXTRA, deps='serde_json = "1"\nserde = { version = "1", features = ["derive"] }\n')
    p.spread(cases, 16)
    p.build()
    chk.log(f"{len(cases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    texts = {}

    def denotes(name, text, want, d, case):
        try:
            o = json.loads(text)
        except ValueError:
            chk.violate(f"json:{name}", f"{name} writes {text!r}, not JSON", case); return False
        if set(o) != {"value", "unit"} or isinstance(o["value"], (bool, str)) or o["value"] is None:
            chk.violate(f"json:{name}", f"{name} writes {text!r}", case); return False
        u = o["unit"]
        if u not in texts:
            try:
                texts[u] = reader.read(u)
            except reader.Odd:
                texts[u] = None
        fs = texts[u]
        if fs is None:
            chk.violate(f"unit:{name}", f"{name} writes the unit {u!r}, which is no unit expression", case); return False
        if ex.fdim(fs) != d:
            chk.violate(f"unit:{name}", f"{name} writes the unit {u!r} of dimension {ex.fdim(fs)}", case); return False
        got = F(json.loads(text, parse_float=F, parse_int=F)["value"]) * ex.fmag(fs)
        if abs(got - want) > F(1, 10**12) * abs(want):
            chk.violate(f"written:{name}", f"{name} is written as {text}: {float(got)} SI, is {float(want)}", case); return False
        return True
    for c in cases:
        m = c.meta
        base = f"{m['d']} x {m['a']} {m['t']} {m['br']}"
        if c.id in p.rejected:
            chk.violate("rejected:" + base, f"{base} does not compile: {p.rejected[c.id][0][1][:200]}", c.body); continue
        o = obs.get(c.id, {})
        if c.id in p.crashed or "PANIC" in o:
            chk.violate("crash:" + base, f"{base}: {p.crashed.get(c.id)} {o.get('PANIC')}", c.body); continue

        def back(name, x, scale, want, brand="()"):
            chk.saw()
            if x is None or x[0] != "ok" or x[1].startswith("error"):
                chk.violate(f"back:{name}", f"{name}: {x}", c.body); return
            q = un.Q(x[1])
            if (q.scale, q.dim, q.brand) != (scale, m["d"], brand):
                chk.violate(f"back:{name}", f"{name}: type {x[1]}", c.body); return
            w = want / un.scale_value(scale)
            if w and not -290 < ex.log10(abs(w)) < 300:
                chk.count("outside_normal_range"); return
            if not math.isfinite(q.num) or abs(F(q.num) - w) > F(1, 10**12) * abs(w):
                chk.violate(f"back:{name}", f"{name}: reads back {q.num!r}, should be {float(w)!r}", c.body)
        for i, v in enumerate(m["vs"]):
            want = F(v) * un.scale_value(m["a"])
            name = f"{base} of {v!r}"
            j = o.get(f"j{i}")
            if j is None or j[0] != "ok" or j[1].startswith("error"):
                chk.violate(f"ser:{name}", f"{name}: {j}", c.body); continue
            chk.saw()
            if not denotes(name, j[1], want, m["d"], c.body):
                continue
            if f"k{i}" in o:
                chk.saw()
                if o[f"k{i}"][0] != "ok" or json.loads(o[f"k{i}"][1]) != json.loads(j[1]):
                    chk.violate(f"ser2:{name}", f"{name}: serialize_to_json gives {o[f'k{i}']}, Serialize gives {j[1]}", c.body)
                if o[f"u{i}"][1] != json.loads(j[1])["unit"]:
                    chk.violate(f"ser3:{name}", f"{name}: to_ucum_unit gives {o[f'u{i}']}, Serialize gives {j[1]}", c.body)
            for k, how in (("a", "from_str"), ("v", "from_value"), ("r", "from_reader")):
                back(f"{how} of {j[1]} ({name})", o.get(f"{k}{i}"), m["a"], want, m["br"])
            for k, b in enumerate(m["others"]):
                back(f"from_str of {j[1]} into scale {b} ({name})", o.get(f"b{k}:{i}"), b, want)
            if len(chk.samples) < 8 and r.random() < .003:
                chk.samples.append({"quantity": name, "json": j[1], "read back": o[f"a{i}"][1], "other scale": o.get("b0:" + str(i), [0, 0])[1]})
        if "rec" in o:
            x = o["rec"]
            for k, part in enumerate(x[1].split("|")):
                back(f"nested record field {k} of {m['vs'][0]!r} {base}", (x[0], part), m["a"], F(m["vs"][0]) * un.scale_value(m["a"]), m["br"])
        if any(m["d"]) or any(m["a"]):
            chk.distinct.add(f"{m['d']}{m['a']}{m['t']}")
    chk.coverage["distinct_unit_texts"] = len(texts)
    return chk.finish(min_events=5000)
