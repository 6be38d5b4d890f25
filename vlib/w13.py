"""W13: reading quantities from text and JSON: converted value, or an error, and never a crash."""
import json, math
from fractions import Fraction as F
import common, units as un, expr as ex, reader
from common import Project, Case, rs_str

PRE = """use whippyunits::quantity::*; use whippyunits::{unit,from_string,from_json}; use probe::*;
use whippyunits::serialization::*;
fn big(f: impl FnOnce() + Send + 'static) { flush(); std::thread::Builder::new().stack_size(2<<20).spawn(move || { f(); flush(); }).unwrap().join().unwrap(); }
fn res<Q: Reflect, E: std::fmt::Display>(r: Result<Q,E>) -> String { match r { Ok(q) => show(&q), Err(e) => { let m = e.to_string(); format!("error {}", m.chars().take(80).collect::<String>()) } } }
#[derive(Clone,Copy,PartialEq)] struct Wrap(f64); impl From<f64> for Wrap { fn from(x: f64) -> Self { Wrap(x) } }
#[derive(Clone,Copy,PartialEq)] struct BrA;
fn agree(main: String, l: Vec<Result<f64,String>>) -> String { let k = |r: &Result<f64,String>| match r { Ok(x) => format!("{:x}", x.to_bits()), Err(e) => e.clone() };
 if l.iter().all(|r| k(r) == k(&l[0])) { main } else { format!("disagree: {l:?}") } }
"""
FUZZ = r"""
struct Rng(u64);
impl Rng { fn n(&mut self, k: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; ((self.0 >> 11) as usize) % k } }
const VOC: &[&str] = &["m","kg","s","A","K","mol","cd","rad","km","ft","degC","degF","in","as","min","Hz","J","eV","Ω","µm","\u{2126}","\u{b5}g","\u{3bc}m","L","lbf","gal","1","10","10^3","0","2","-1","^","^2","^-3","^(","*",".","/","(",")"," ","  ","\t","\n","2","3","s2","m3","kg2","_","r#m","'a","\"","\\","//","/*","*/","#","[","]","{","}","|","+","-","=","e","E","e5","inf","nan","NaN","0x10","1e400","1u8","1.0","1.","99999999999999999999","32767","32768","-32768","^8191","^9000","\u{0}","\u{301}","é","🦀","\u{202e}","power_of_10","dimensionless","ftm","xyz","k","kk","kkm","m2s","2m","m^2^2","m//s","1_0","''","b'a'","c\"x\"","r\"x\"","#!","..","...","..=","->","::","$","?","~","@","`","\u{feff}"];
fn gtext(r: &mut Rng) -> String {
    let mode = r.n(10);
    let mut s = String::new();
    let k = match mode { 0 => 1 + r.n(3), 9 => r.n(300), _ => 1 + r.n(14) };
    if mode < 3 { for _ in 0..k { s.push_str(VOC[r.n(27)]); s.push_str(["*",".","/","^2","^-1"," ","/(",")"][r.n(8)]); } if r.n(2)==0 { s.pop(); } }
    else if mode == 8 { for _ in 0..k { if let Some(c) = char::from_u32(if r.n(3)==0 { r.n(0x11000) } else { r.n(128) } as u32) { s.push(c) } } }
    else { for _ in 0..k { s.push_str(VOC[r.n(VOC.len())]) } }
    s
}
fn fuzz(id: &'static str, seed: u64, n: usize) {
    let only: Option<usize> = std::env::var("FUZZ_ONLY").ok().and_then(|x| x.parse().ok());
    let trace = std::env::var("FUZZ_TRACE").is_ok();
    let mut r = Rng(seed); let (mut ok, mut err, mut shown) = (0u64, 0u64, 0);
    for i in 0..n {
        let t = gtext(&mut r);
        if trace { ev(&[id, "trace", &t]); flush(); }
        match guard(|| parse_ucum_unit(&t)) {
            Err(m) => ev(&[id, "p", "panic", &t, &m]),
            Ok(Ok((d, s))) => { ok += 1; if shown < 4000 && (t.len() > 3 || ok < 200) { shown += 1; ev(&[id, "u", "ok", &t, &format!("{:?};{:?}", s.0, d.0)]); } }
            Ok(Err(e)) => { err += 1; let _ = e.to_string(); }
        }
        let num = ["5","1.5","-2e3","inf","nan","","5e","+.5","1e999","--1"][r.n(10)];
        let text = format!("{}{}{}", num, ["", " ", "  "][r.n(3)], t);
        match guard(|| { let a = res(from_string!(&text, m)); let b = res(from_string!(&text, kg*m/s^2)); let q: unit!(mm) = <unit!(mm)>::new(1.5);
                let f = q.fmt(&t).to_string(); let g = format!("{:.3}", q.fmt(&t)); (a, b, f, g) }) {
            Err(m) => ev(&[id, "p", "panic", &text, &m]),
            Ok((a, b, f, g)) => { if (!a.starts_with("error") && !b.starts_with("error")) || f.starts_with("Error") != g.starts_with("Error") { ev(&[id, "p", "panic", &text, &format!("inconsistent: {a} | {b} | {f} | {g}")]) } }
        }
        let js = format!("{{\"value\":{},\"unit\":{}}}", ["1","2.5","null","\"3\"","1e5"][r.n(5)], serde_json::to_string(&t).unwrap());
        match guard(|| { let a = res(from_json!(&js, m)); let b = match serde_json::from_str::<unit!(m)>(&js) { Ok(q) => show(&q), Err(e) => { let _ = e.to_string(); "error".into() } }; (a, b) }) {
            Err(m) => ev(&[id, "p", "panic", &js, &m]),
            Ok((a, b)) => if a.starts_with("error") != b.starts_with("error") || (!a.starts_with("error") && a != b) { ev(&[id, "p", "panic", &js, &format!("from_json {a}, Deserialize {b}")]) }
        }
    }
    ev(&[id, "n", "ok", &format!("{ok} {err}")]);
}
"""


def numtext(r):
    """(text, value)"""
    c = r.random()
    if c < .3:
        v = r.choice([0, 1, -1, 2, 5, 100, -40, 20, 1000000, r.randint(-10**6, 10**6)])
        t = str(v)
    elif c < .6:
        v = round(r.uniform(-1000, 1000), r.randint(0, 6)); t = repr(v)
    elif c < .8:
        v = math.ldexp(r.random() + .5, r.randint(-60, 60)) * r.choice([1, -1]); t = repr(v)
    else:
        t = r.choice(["1e3", "25e-0004", "1E+0012", "1.5e007", "-3e-010", "1E3", "2.5e-4", "+7", ".5", "5.", "-.25", "1e+2", "00012.50", "-0.0", "+1.5E-02", "123456789012345678901234567890",
                      "0.00000000000000000000000000012345"])
        v = float(t)
    return t, float(t)


def jnum(r):
    while True:
        t, v = numtext(r)
        try:
            json.loads(t)
            return t, v
        except ValueError:
            pass


def run(chk):
    chk.rule = ("(text, target unit, reader) with reader one of from_string!, from_json!, serde Deserialize; plus fuzzed unit texts through "
                "every reader and the formatter; distinct by (target, unit text)")
    chk.assumptions = ["tolerance 1e-12 relative (zero points: relative to the larger operand)", "texts reading 'inf'/'nan' as the number may be accepted",
                       "fuzzed texts whose reading hinges on Rust's tokenizer (comments, raw identifiers, literal suffixes) are watched for crashes only",
                       "threads of 2 MiB stack, debug build"]
    r = chk.rng
    sps = [s for s in un.spellings(names=True, caps=True) if s.u.name != "lumen"]
    ok_sps = [s for s in sps if not s.u.affine]
    bydim = {}
    for s in sps:
        bydim.setdefault(s.u.dim, []).append(s)
    # targets: one per dimension plus compound ones
    targets = []
    stor = [s for s in ok_sps if s.u.storage and un.macro_ok(s.text)]
    for d, l in bydim.items():
        c = [s for s in l if s.u.storage and not s.u.affine and un.macro_ok(s.text)]
        for s in r.sample(c, min(len(c), 2 if not chk.thorough else 8)):
            targets.append((s.text, [(s, 1)], l))
    while len(targets) < (70 if not chk.thorough else 500):
        e = ex.rand(r, lambda: r.choice(stor), 2)
        fs = ex.factors(e)
        if ex.flog(fs)[1] < 60 and max(map(abs, ex.fdim(fs))) < 30:
            targets.append((ex.render(r, e, "trad"), fs, None))
    cases, expect = [], {}
    p = Project("W13", prelude=PRE + FUZZ, deps=f'serde_json = "1"\nwhippyunits-proc-macros = {{ path = "{common.REPO}/proc-macros" }}\n')
    for ti, (tt, tfs, l) in enumerate(targets):
        td, tm = ex.fdim(tfs), ex.fmag(tfs)
        texts = []     # (kind s|j, text, expected SI or None, tolerance base, unit text)
        n = 60 if not chk.thorough else 200

        def units_for():
            """a unit text of the target's dimension: (text, mag, off, loose)"""
            c = r.random()
            if l and c < .6:
                s = r.choice(l)
                return s.text, s.value, s.u.off, un.LOOSE.get(s.u.name, 0)
            # rewrite the target's factors with other units of each dimension
            for _ in range(20):
                fs = []
                for s, k in tfs:
                    if s == 10:
                        continue
                    o = [x for x in bydim[s.u.dim] if not x.u.affine]
                    fs.append((r.choice(o), k))
                if c < .5 and fs:
                    s = r.choice(ok_sps)
                    k = r.choice([1, -1, 2])
                    o = r.choice([x for x in bydim[s.u.dim] if not x.u.affine])
                    fs += [(s, k), (o, -k)]
                if ex.flog(fs)[1] < 200:
                    break
            else:
                return None
            r.shuffle(fs)
            e = None
            for s, k in fs:
                neg = k < 0 and r.random() < .6
                x = ex.usp(s)
                kk = -k if neg else k
                if kk != 1:
                    x = ex.E("pow", x, n=kk)
                e = x if e is None and not neg else ex.E("div" if neg else "mul", e or ex.E("one"), x)
            if e is None:
                e = ex.E("one")
            t = ex.render(r, e, r.choice(["trad", "compact", "mixed"]))
            return t, ex.fmag(fs), F(0), ex.loose(fs)
        for _ in range(n):
            x = units_for()
            if x is None:
                continue
            ut, mag, off, lo = x
            kind = r.choice("ssjd")
            nt, v = numtext(r) if kind == "s" else jnum(r)
            want = (F(v) + off) * mag
            base = max(abs(F(v) * mag), abs(off * mag))
            if base and not (-270 < ex.log10(base / tm) < 290):
                continue
            if kind == "s":
                sep = r.choice(["", " ", "  ", "\t"] if not ut[0].isdigit() else [" ", "\t"])
                text = r.choice(["", "", " "]) + nt + sep + ut + r.choice(["", "", " ", "\n"])
            else:
                a, b = f'"value":{nt}', f'"unit":{json.dumps(ut, ensure_ascii=r.random() < .5)}'
                parts = [a, b] + ([f'"extra":{r.choice(["1", "null", "[1,2]", chr(34)*2])}'] if r.random() < .2 else [])
                r.shuffle(parts)
                text = "{" + ("," + r.choice(["", " "])).join(parts) + "}"
            texts.append((kind, text, want, base, 1e-12 + lo, ut))
        for _ in range(n // 2):
            # wrong dimension / unknown / malformed / no number: must be errors
            c = r.random()
            kind = r.choice("ssjd")
            nt, v = jnum(r)
            if c < .4:
                s = r.choice(sps)
                if s.u.dim == td or s.text in un.KEYWORDS:
                    continue
                ut = s.text
            elif c < .6:
                ut = r.choice(["xyz", "kkm", "m^", "^2", "m**2", "m/", "(m", "m)", "m m", "2m", "7", "m^2^2", "m^x", "m^1.5", "()", "m/2", "$", "k", "m,s",
                               "m+s", "m-s", "mm m", "ms^", "m^99999", "m^-99999", "m99999", "(m^8000)^8000", "kft", "Mmin", "metre", "%", "",
                               "µ", "m·s", "m²", "m/s/", "*m", ".m", "m.", "((m)", "10.5", "1e3", "10^", "0", "m|s", "[m]", "{m}", "m;"])
            elif c < .8:
                kind = "s"
                ut = targets[ti][0]
                nt = r.choice(["", "abc", "--5", "1.2.3", "0x10", "1,5", "five", "e5", "+", "-", ".", "1e", "1_000", "5 5", "½", "٣"])
                if nt in ("1e", "", "-", ".", "+", "e5") or True:
                    pass
            else:
                texts.append((r.choice("jd"), r.choice(["", "{}", "[]", "null", "5", '"5 m"', '{"value":1}', '{"unit":"m"}', '{"value":null,"unit":"m"}',
                                                       '{"value":"x","unit":"m"}', '{"value":1,"unit":1}', '{"value":1,"unit":null}', '{"value":1,"unit":"m"',
                                                       '{"value":1e999,"unit":"m"}', "[" * 5000, '{"value":[' + "{" * 3000, '{"value":true,"unit":"m"}']), None, 0, 0, "?"))
                continue
            if kind == "s":
                text = nt + " " + ut
            else:
                text = '{"value":%s,"unit":%s}' % (nt, json.dumps(ut))
            texts.append((kind, text, None, 0, 0, ut))
        f = f"{p.dir}/t{ti}.json"
        json.dump([[k, t] for k, t, *_ in texts], open(f, "w"))
        dc = "deserialize_core::<" + ",".join("{%d}" % k for k in (*td, *ex.fscale(tfs))) + ">"
        body = f"""big(|| {{ let id = "t{ti}"; let l: Vec<(String,String)> = serde_json::from_str(include_str!({rs_str(f)})).unwrap();
 for (i,(k,t)) in l.iter().enumerate() {{ s(id,&i.to_string(),|| match k.as_str() {{
   "s" => agree(res(from_string!(t, {tt})), vec![from_string!(t, {tt}, f64).map(|q| q.unsafe_value).map_err(|e| e.to_string()),
      from_string!(t, {tt}, Wrap).map(|q| q.unsafe_value.0).map_err(|e| e.to_string()), parse_string_input(t).and_then(|(v,u)| {dc}(v,&u)).map_err(|e| e.to_string())]),
   "j" => agree(res(from_json!(t, {tt})), vec![from_json!(t, {tt}, f64).map(|q| q.unsafe_value).map_err(|e| e.to_string()),
      from_json!(t, {tt}, Wrap).map(|q| q.unsafe_value.0).map_err(|e| e.to_string()), parse_json_input(t).and_then(|(v,u)| {dc}(v,&u)).map_err(|e| e.to_string())]),
   _ => agree(match serde_json::from_str::<unit!({tt})>(t) {{ Ok(q) => show(&q), Err(e) => format!("error {{}}", e) }}, vec![
      serde_json::from_str::<unit!({tt})>(t).map(|q| q.unsafe_value).map_err(|e| e.to_string()), serde_json::from_str::<unit!({tt}, f64, BrA)>(t).map(|q| q.unsafe_value).map_err(|e| e.to_string()),
      serde_json::from_slice::<unit!({tt}, Wrap)>(t.as_bytes()).map(|q| q.unsafe_value.0).map_err(|e| e.to_string())]) }}) }} }});"""
        cases.append(Case(f"t{ti}", body, (tt, tfs, texts)))
    # fuzz
    nf = 150000 if not chk.thorough else 700000
    for k in range(8):
        cases.append(Case(f"z{k}", f'big(|| fuzz("z{k}", {r.getrandbits(60) | 1}, {nf}));', None))
    for k in range(8):
        p.add_bin(f"b{k}", cases[k::8])
    # bulk and depth texts
    deep = []
    for k in (50, 500, 1000, 5000, 20000, 200000):
        deep += ["(" * k + "m" + ")" * k, "m" + "^2" * k, "m" + "*m" * k, "m" + "/m" * k, "(" * k, "m" * k, "1" * k, "m^" + "9" * k, " " * k + "m",
                 "m" + " " * k, "(m*" * k + "m" + ")" * k, "[" * k, "[" * k + "]" * k, "{(" * k, "10^" * k, "m/(" * k + "s" + ")" * k, "/*" * k, "é" * k, "'" * k, "m.1" * k]
    f = f"{p.dir}/deep.json"
    json.dump(deep, open(f, "w"))
    body = f"""big(|| {{ let id = "deep"; let l: Vec<String> = serde_json::from_str(include_str!({rs_str(f)})).unwrap();
 for (i,t) in l.iter().enumerate() {{ ev(&[id,"start",&i.to_string()]); flush(); s(id,&i.to_string(),|| {{ let q = <unit!(m)>::new(1.0);
   format!("{{}}|{{}}|{{}}|{{}}", parse_ucum_unit(t).is_ok(), res(from_string!(&format!("5 {{t}}"), m)).len(), res(from_string!(&format!("5{{t}}"), m)).len(), q.fmt(t).to_string().len()) }}); }} }});"""
    p.add_bin("deep", [Case("deep", body, None)])
    p.build()
    chk.log(f"built in {p.build_s:.1f}s")
    obs = {}
    fz = []
    for e in p.run(timeout=240 if not chk.thorough else 700):
        if e[0][0] == "z":
            fz.append(e)
        else:
            obs.setdefault(e[0], {})[e[1]] = e[2:]
    for cid, why in p.crashed.items():
        extra = ""
        if cid == "deep":
            st = [k for k in obs.get("deep", {}) if k.isdigit()]
            i = len(st)
            extra = f" on text {deep[i][:40]!r}... ({len(deep[i])} bytes)" if i < len(deep) else ""
        chk.violate(f"crash:{cid}{extra}", f"reading text killed the process: {why}{extra}")
    for ti, (tt, tfs, texts) in enumerate(c.meta for c in cases if c.meta):
        td, tm = ex.fdim(tfs), ex.fmag(tfs)
        cid = f"t{ti}"
        if cid in p.rejected:
            chk.violate(f"rejected:{tt}", f"reading into {tt} does not compile: {p.rejected[cid][0][1][:200]}"); continue
        o = obs.get(cid, {})
        for i, (kind, text, want, base, tol, ut) in enumerate(texts):
            x = o.get(str(i))
            if x is None:
                continue
            how = {"s": "from_string!", "j": "from_json!", "d": "Deserialize"}[kind]
            name = f"{how}:{text[:80]!r} into {tt}"
            chk.saw(f"{tt}:{ut}", sample={"reader": how, "text": text, "target": tt, "observed": x[1]} if r.random() < .002 else None)
            if x[0] != "ok":
                chk.violate("panic:" + name, f"{name} panics: {x[1]}", text); continue
            if x[1].startswith("disagree"):
                chk.violate("disagree:" + name, f"{name}: the readers of this format disagree (f64, custom storage type, deserialize_core / brand): {x[1][9:]}", text); continue
            if want is None:
                if not x[1].startswith("error"):
                    chk.violate("accepted:" + name, f"{name} must be an error, gives {x[1]}", text)
                else:
                    chk.count("errors_reported")
                continue
            if x[1].startswith("error"):
                chk.violate("refused:" + name, f"{name} is valid, gives {x[1]}", text); continue
            q = un.Q(x[1])
            chk.count("conversions")
            if q.dim != td:
                chk.violate("dim:" + name, f"{name} gives dimension {q.dim}", text)
            elif math.isinf(q.num) or math.isnan(q.num) or abs(F(q.num) * tm - want) > tol * max(base, abs(want)):
                chk.violate("value:" + name, f"{name}: got {q.num} {tt}, should be {float(want / tm)}", text)
    tot = [0, 0]
    for e in fz:
        if e[1] == "p":
            chk.violate(f"fuzz:{e[3]!r}", f"text {e[3]!r}: {e[4]}", e[3])
        elif e[1] == "n":
            a, b = e[3].split(); tot[0] += int(a); tot[1] += int(b)
        elif e[1] == "u":
            t = e[3]
            s, d = (tuple(eval(z)) for z in e[4].split(";"))
            try:
                fs = reader.read(t)
            except reader.Odd:
                chk.count("fuzz_accepted_no_verdict"); continue
            if "power_of_10" in t or "dimensionless" in t:
                continue
            if fs is None:
                chk.violate(f"fuzz-accepted:{t!r}", f"text {t!r} is malformed or unknown but read as {s} {d}", t); continue
            chk.count("fuzz_accepted_checked")
            if any(x != 10 and x.u.name == "lumen" for x, _ in fs):
                continue
            if d != ex.fdim(fs):
                chk.violate(f"fuzz-misread:{t!r}", f"text {t!r} read as dimension {d}, algebra says {ex.fdim(fs)}", t)
            elif ex.all_storage(fs) and not any(x != 10 and x.u.affine for x, _ in fs) and ex.flog(fs)[1] < 3000:
                if un.scale_value(s) != ex.fmag(fs):
                    chk.violate(f"fuzz-misread:{t!r}", f"text {t!r} read as scale {s}", t)
    if tot[0] + tot[1] < 8 * nf and not chk.violations:
        raise common.Inconclusive(f"fuzzing stopped early: {tot}")
    chk.coverage["fuzz_texts_accepted"], chk.coverage["fuzz_texts_refused"] = tot
    chk.saw(n=3 * sum(tot))
    for i, t in enumerate(deep):
        x = obs.get("deep", {}).get(str(i))
        if x and x[0] != "ok":
            chk.violate(f"deep:{t[:20]}x{len(t)}", f"long text {t[:20]!r}... ({len(t)} bytes) panics: {x[1]}")
        chk.saw(n=1)
    return chk.finish(min_events=50000)
