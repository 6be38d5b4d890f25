"""W25: exponent vectors, at run time and at type level, obey the algebra of dimensions, and their names denote them."""
from fractions import Fraction as F
import common, gen, units as un, printed, w15
from common import Project, Case, rs_str

PRE = """use probe::*; use whippyunits_core::{*, dimension_exponents as de, dimension_exponents::*, scale_exponents::ScaleExponents, num::{N, Num}};
use whippyunits::{quantity, from_string, from_json, serialization as ws};
use whippyunits_core::dimension_exponents::DynDimensionExponents as D8;
fn n<X: Num>(_: X) -> i16 { X::N }
fn l<X: std::fmt::Debug>(x: X) -> String { format!("{x:?}") }
fn nums<const K: usize>(t: &str) -> [i16; K] { let v: Vec<i16> = t.split(',').map(|x| x.parse().unwrap()).collect(); v.try_into().unwrap() }
fn basis(x: Option<DimensionBasis>) -> String { x.map(|b| format!("{b:?}")).unwrap_or("~".into()) }
fn vecs(t: &str) -> String { let f: Vec<&str> = t.split(';').collect(); let (a, b, k) = (D8(nums(f[0])), D8(nums(f[1])), f[2].parse::<i16>().unwrap());
  [l((a+b).0), l((-a).0), l((a*k).0), a.to_string(), a.is_zero().to_string(), basis(a.as_basis()), l(a.value().0), (a == b).to_string(),
   Dimension::find_dimension_by_exponents(a).map(|d| l(d.exponents.0)).unwrap_or("~".into())].join("|") }
fn scales(t: &str) -> String { let f: Vec<&str> = t.split(';').collect(); let (a, b, k) = (ScaleExponents(nums(f[0])), ScaleExponents(nums(f[1])), f[2].parse::<i16>().unwrap());
  [l(a.mul(b).0), l(a.neg().0), l(a.scalar_exp(k).0), a.log10().map(|x| x.to_string()).unwrap_or("~".into()), (a == b).to_string(),
   l(ScaleExponents::_2(k).0), l(ScaleExponents::_3(k).0), l(ScaleExponents::_5(k).0), l(ScaleExponents::_Pi(k).0), l(ScaleExponents::_6(k).0), l(ScaleExponents::_10(k).0), l(ScaleExponents::IDENTITY.0)].join("|") }
fn dims(t: &str) -> String { let f: Vec<&str> = t.split(';').collect();
  let (a, b) = ((D8(nums(f[0])), ScaleExponents(nums(f[1]))), (D8(nums(f[2])), ScaleExponents(nums(f[3]))));
  let (m, v) = (ws::dimensions_match(&a, &b), ws::validate_dimensions(&a, &b));
  let e = match &v { Ok(()) => "~".to_string(), Err(e) => { let k = matches!(e, ws::SerializationError::DimensionMismatch { expected, actual } if *expected == a && *actual == b); format!("{k}/{e}") } };
  [m.to_string(), e, ws::calculate_conversion_factor(&a, &b).bits()].join("|") }
fn names(t: &str) -> String { let f: Vec<&str> = t.split(';').collect(); let (d, s) = (D8(nums(f[0])), ScaleExponents(nums(f[1])));
  let g = |v, p| generate_unit_literal(d, s, UnitLiteralConfig { verbose: v, prefer_si_units: p });
  let k = |v| lookup_unit_literal_by_scale_factors(&d.0, s, v).unwrap_or("~").to_string();
  let i = lookup_dimension_name(d.0.to_vec());
  let j = |x: Option<Option<&str>>| x.flatten().unwrap_or("~").to_string();
  [get_storage_unit_name(s, d, false), get_storage_unit_name(s, d, true), g(false, true), g(true, true), g(false, false), g(true, false), k(false), k(true),
   generate_systematic_unit_name(d.0.to_vec(), false), generate_systematic_unit_name(d.0.to_vec(), true),
   j(i.as_ref().map(|x| Some(x.dimension_name))), j(i.as_ref().map(|x| x.unit_si_shortname_symbol)), j(i.as_ref().map(|x| x.unit_si_shortname))].join("|") }
fn sup(t: &str) -> String { let k = t.parse().unwrap(); [to_unicode_superscript(k, false), to_unicode_superscript(k, true)].join("|") }
fn table() { for d in Dimension::ALL { ev(&["T","D",d.name,&l(d.exponents.0)]); for u in d.units { ev(&["T","U",u.name,&u.symbols.join(" "),&l(u.exponents.0),&u.conversion_factor.bits(),u.system.as_str(),&l(u.scale.0)]); } }
  for (u, d) in Dimension::si_base_units() { ev(&["T","SI",u.name,d.name]); } for (u, d) in Dimension::non_si_base_units() { ev(&["T","NSI",u.name,d.name]); }
  for x in Dimension::names(Dimension::ALL) { ev(&["T","N",x]); } for x in Dimension::symbols(Dimension::ALL) { ev(&["T","S",x]); }
  for (i, u) in Unit::BASES.iter().enumerate() { ev(&["T","B",&i.to_string(),u.name,&l(u.exponents.0)]); }
  for (i, d) in Dimension::BASIS.iter().enumerate() { ev(&["T","BD",&i.to_string(),d.name,&l(d.exponents.0)]); }
  for (i, b) in DimensionBasis::ALL.iter().enumerate() { ev(&["T","BB",&i.to_string(),&l(b),b.symbol(),&l(b.exponents().0),&basis(b.exponents().as_basis())]); }
  for (i, c) in [D8::MASS,D8::LENGTH,D8::TIME,D8::CURRENT,D8::TEMPERATURE,D8::AMOUNT,D8::LUMINOSITY,D8::ANGLE].into_iter().enumerate() { ev(&["T","C",&i.to_string(),&l(c.0)]); }
  for (i, c) in [de::Mass::new().value(),de::Length::new().value(),de::Time::new().value(),de::Current::new().value(),de::Temperature::new().value(),de::Amount::new().value(),de::Luminosity::new().value(),de::Angle::new().value()].into_iter().enumerate() { ev(&["T","C",&i.to_string(),&l(c.0)]); }
  ev(&["T","Z",&l(D8::ZERO.0),&l(de::Zero::new().value().0),&de::Zero::new().is_zero().to_string()]); }
"""
AX = ["Mass", "Length", "Time", "Current", "Temperature", "Amount", "Luminosity", "Angle"]
LET = ["M", "L", "T", "I", "Θ", "N", "J", "A"]
I16 = range(-32768, 32768)
csv = lambda v: ",".join(map(str, v))
lst = lambda v: "[" + ", ".join(map(str, v)) + "]"
add = lambda a, b: tuple(x + y for x, y in zip(a, b))
neg = lambda a: tuple(-x for x in a)
mul = lambda a, k: tuple(x * k for x in a)
ok16 = lambda v: all(x in I16 for x in v)


def basis_of(a):
    return AX[a.index(1)] if sorted(a) == [0] * 7 + [1] else "~"


def disp(a):
    return " * ".join(f"{LET[i]}^{x}" for i, x in enumerate(a) if x) or "1"


def run(chk):
    chk.rule = ("(operation, operands): run-time exponent and scale vectors read from a list, type-level vectors and numbers in generated programs, quantities of random types, and the "
                "core crate's tables; distinct by operands; non-trivial = at least two non-zero exponents")
    chk.assumptions = ["results inside i16 (outside, the arithmetic is Rust's own)", "type-level numbers within -200..200, as documented without the cge feature",
                       "the printed name of a vector alone (no scale) may be of any unit of that dimension", "names are read back by the reader of W15 (units within 10^+-90)"]
    r = chk.rng
    big = 5 if chk.thorough else 1
    cat = list(dict.fromkeys([u.dim for u in un.CATALOGUE] + list(printed.DIMNAME.values())))

    def dv(m=None):
        c = r.random()
        if c < .25 and m is None:
            return r.choice(cat)
        v = [0] * 8
        for i in r.sample(range(8), r.choice([0, 1, 1, 2, 2, 3, 4, 8])):
            v[i] = r.choice([1, 1, 1, -1, 2, -2, 3, r.randint(-12, 12), r.randint(-m, m) if m else r.choice([-32768, 32767, r.randint(-32768, 32767), 255, 256, -256])])
        return tuple(v)

    def sv():
        c = r.random()
        if c < .3:
            p = r.randint(-30, 30); return (p, 0, p, 0)
        if c < .4:
            p = r.randint(-30, 30); return r.choice([(p, 0, p, 1), (p, 1, p, 0), (p, 0, p + 1, 0), (p, 0, -p, 0)])
        return tuple(r.choice([0, 1, -1, r.randint(-20, 20)]) for _ in range(4)) if c < .9 else tuple(r.choice([0, r.randint(-32768, 32767)]) for _ in range(4))

    rows = []          # (kind, text, operands)
    allones = [tuple(int(i == j) for j in range(8)) for i in range(8)]
    base = [(0,) * 8] + allones + [mul(a, k) for a in allones for k in (-1, 2, -2, 256, 257, -255)] + [add(a, b) for a in allones for b in allones] + [add(a, neg(b)) for a in allones for b in allones] + cat
    pairs = [(a, r.choice(base)) for a in base] + [(dv(), dv()) for _ in range(25000 * big)]
    for a, b in pairs:
        k = r.choice([0, 1, -1, 2, -2, 3, r.randint(-20, 20), r.randint(-32768, 32767)])
        if not ok16(add(a, b)):
            b = neg(a) if ok16(neg(a)) else (0,) * 8
        if not ok16(mul(a, k)):
            k = r.choice([0, 1])
        if not ok16(neg(a)):
            a = tuple(max(x, -32767) for x in a)
        if ok16(add(a, b)):
            rows.append(("vecs", f"{csv(a)};{csv(b)};{k}", (a, b, k)))
    for _ in range(25000 * big):
        a, b, k = sv(), sv(), r.choice([0, 1, -1, 2, -3, r.randint(-40, 40), r.randint(-32768, 32767)])
        a = tuple(max(x, -32767) for x in a)
        if not ok16(add(a, b)):
            b = neg(a)
        if not ok16(mul(a, k)):
            k = r.choice([0, 1])
        rows.append(("scales", f"{csv(a)};{csv(b)};{k}", (a, b, k)))
    for _ in range(15000 * big):
        a = dv(30); b = a if r.random() < .3 else r.choice([dv(30), add(a, r.choice(allones)), neg(a), a[1:] + a[:1]])
        s, t = gen.rscale(r), gen.rscale(r)
        rows.append(("dims", f"{csv(a)};{csv(s)};{csv(b)};{csv(t)}", (a, s, b, t)))
    pool = w15.units_pool(r, 30000 * big)
    for d, s in pool:
        rows.append(("names", f"{csv(d)};{csv(s)}", (d, s)))
    for k in sorted({*range(-130, 131), 32767, -32767, *(r.randint(-32767, 32767) for _ in range(200))}):
        rows.append(("sup", str(k), k))
    p = Project("W25", prelude=PRE)
    K = 6
    for k in range(K):
        with open(f"{p.dir}/l{k}.txt", "w") as f:
            f.write("".join(f"{a}\t{b}\n" for a, b, _ in rows[k::K]))
        body = (f""" for (i,t) in include_str!({rs_str(f"{p.dir}/l{k}.txt")}).lines().enumerate() {{ let i = i.to_string(); let (k,t) = t.split_once('\\t').unwrap();"""
                """ s(id,&i,||match k { "vecs" => vecs(t), "scales" => scales(t), "dims" => dims(t), "names" => names(t), "sup" => sup(t), _ => unreachable!() }); }""")
        p.add_bin(f"b{k}", [Case(f"r{k}", body)] + ([Case("tab", " let _ = id; table();")] if k == 0 else []))
    cases = []
    tv = lambda v: f"whippyunits_core::dimension_exponents!([{','.join(map(str, v))}])"
    for j in range(200 * big):
        m = r.choice([3, 12, 99, 100, 200])
        a, b = dv(m), dv(m)
        if j < 30:
            a, b = r.choice(base[:9]), r.choice(base[:9])
        if not all(abs(x) <= 200 for x in (*a, *b)):
            continue
        body = (f" type A = {tv(a)}; type B = {tv(b)};\n s(id,\"v\",||l(A::new().value().0)); s(id,\"c\",||l(A::new().value_const().0)); s(id,\"d\",||l(A::default().value().0));"
                f" s(id,\"z\",||A::new().is_zero().to_string()); s(id,\"b\",||basis(A::new().as_basis())); s(id,\"+\",||l((A::new() + B::new()).value().0)); s(id,\"-\",||l((A::new() - B::new()).value().0));"
                f" s(id,\"d+\",||l((D8({lst(a)}) + B::new()).0));")
        cases.append(Case(f"t{j}", body, ("type", a, b)))
    # every number of the stable range as operand, every sum and difference as a result
    every = [(x, y) for x in range(-200, 201) for y in ((0, 200, r.randint(-200, 200)) if x > 0 else (0, -200, r.randint(-200, 200)))] + [(0, x) for x in range(-200, 201)]
    every += [(r.randint(-200, 200), r.randint(-200, 200)) for _ in range(400 * big)]
    for j in range(0, len(every), 25):
        ps = every[j:j + 25]
        cases.append(Case(f"n{j}", " s(id,\"n\",||[" + ",".join(f"n(N::<{a}> + N::<{b}>),n(N::<{a}> - N::<{b}>),n(-N::<{a}>)" for a, b in ps) + "].map(|x: i16| x.to_string()).join(\",\"));", ("num", ps, None)))
    for j in range(100 * big):
        d, s = dv(20), gen.rscale(r)
        t = r.choice(["f64", "f32", "i32", "u8", "i64"])
        cases.append(Case(f"g{j}", f" s(id,\"g\",||{{ use whippyunits::quantity::{{Quantity,Scale,Dimension,_2,_3,_5,_Pi,_M,_L,_T,_I,_Θ,_N,_J,_A}}; let (d,s) = ws::get_quantity_dimensions(&<{un.qtype(s, d, t, '()')}>::new(1 as {t})); format!(\"{{:?}};{{:?}}\", d.0, s.0) }});", ("get", d, s)))
    sps = [x for x in un.spellings(names=True) if un.macro_ok(x.text) and x.u.name != "lumen"]
    for j in range(90 * big):
        a, b = r.choice(sps), r.choice([x for x in sps if x.u.storage and not x.u.affine])
        if a.u.dim == b.u.dim:
            continue
        cases.append(Case(f"e{j}", f" s(id,\"s\",||from_string!({rs_str(f'5 {a.text}')}, {b.text}).map(|_| ()).unwrap_err().to_string()); s(id,\"j\",||from_json!({rs_str('{"value": 2.5, "unit": "' + a.text + '"}')}, {b.text}).map(|_| ()).unwrap_err().to_string());"
                          + f" s(id,\"c\",||ws::deserialize_core::<{','.join('{%d}' % z for z in b.u.dim)},0,0,0,0>(1.5, {rs_str(a.text)}).map(|_| ()).unwrap_err().to_string());",
                          ("err", a, b)))
    p.spread(cases, 6, stem="g")
    p.build()
    chk.log(f"{len(rows)} rows, {len(cases)} generated cases, built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs, tab = {}, []
    for e in p.run(timeout=200):
        if e[0] == "T":
            tab.append(e)
        else:
            obs.setdefault(e[0], {})[e[1]] = e[2:]
    for k in range(K):
        o = obs.get(f"r{k}", {})
        for i, (kind, text, op) in enumerate(rows[k::K]):
            x = o.get(str(i))
            name = f"{kind} {text}"
            if x is None:
                chk.violate(f"lost:{name}", f"{name}: no answer ({p.crashed.get(f'r{k}')})", text); continue
            chk.saw(f"{kind} {text}" if kind != "sup" and sum(z != 0 for z in op[0]) > 1 else None, sample={"input": name, "answer": x[1]} if r.random() < .0003 else None)
            chk.count(kind)
            if x[0] != "ok":
                chk.violate(f"panic:{name}", f"{name} panics: {x[1]}", text); continue
            y = x[1].split("|")
            if kind == "vecs":
                a, b, n = op
                want = [lst(add(a, b)), lst(neg(a)), lst(mul(a, n)), disp(a), str(not any(a)).lower(), basis_of(a), lst(a), str(a == b).lower(), lst(a) if any(a) and a in printed.DIMNAME.values() else None]
                what = ["a + b", "-a", "a * k", "Display", "is_zero", "as_basis", "value", "==", "find_dimension_by_exponents"]
            elif kind == "scales":
                a, b, n = op
                want = [lst(add(a, b)), lst(neg(a)), lst(mul(a, n)), str(a[0]) if a[0] == a[2] and a[1] == a[3] == 0 else "~", str(a == b).lower(),
                        *(lst(v) for v in [(n, 0, 0, 0), (0, n, 0, 0), (0, 0, n, 0), (0, 0, 0, n), (n, n, 0, 0), (n, 0, n, 0), (0, 0, 0, 0)])]
                what = ["mul", "neg", "scalar_exp", "log10", "==", "_2", "_3", "_5", "_Pi", "_6", "_10", "IDENTITY"]
            elif kind == "sup":
                dec = lambda t: printed.sup(t) if t else 1
                want = [op, op]; y = [dec(z) for z in y]; what = ["superscript", "superscript (1 shown)"]
            elif kind == "dims":
                a, s, b, t = op
                want = [str(a == b).lower(), "~" if a == b else None, None]; what = ["dimensions_match", "validate_dimensions", ""]
                if a != b:
                    mismatch(chk, name, y[1].split("/", 1), a, b, text)
                q = un.scale_value(s) / un.scale_value(t)
                if 1e-290 < q < 1e290 and abs(F(un.f64(y[2])) - q) > F(1e-12) * q:
                    chk.violate(f"factor:{name}", f"calculate_conversion_factor from scale {s} to {t} is {un.f64(y[2])}, should be {float(q)}", text)
            else:
                want, what = [], []
                d, s = op
                for i_, z in enumerate(y[:6]):
                    w15.judge_unit(chk, z, i_ % 2 == 1, d, s, f"{('get_storage_unit_name', 'generate_unit_literal')[i_ > 1]}{' (long)' * (i_ % 2)} of {d} scale {s}", text)
                for i_ in (6, 7):
                    if y[i_] != "~":
                        w15.judge_unit(chk, y[i_], i_ == 7, d, s, f"lookup_unit_literal_by_scale_factors of {d} scale {s}", text)
                for i_ in (8, 9):
                    g = printed.read(y[i_], i_ == 9)
                    if g is None or g[0] != d:
                        chk.violate(f"systematic:{name}", f"generate_systematic_unit_name of {d} is {y[i_]!r}, of dimension {g and g[0]}", text)
                if y[10] != "~" and printed.DIMNAME.get(y[10]) != d:
                    chk.violate(f"dimname:{name}", f"lookup_dimension_name of {d} is {y[10]!r}", text)
                for i_ in (11, 12):
                    g = (un.BY_SYMBOL if i_ == 11 else un.BY_NAME).get(y[i_])
                    if y[i_] != "~" and (g is None or g.dim != d) and y[i_] not in ("1", "dimensionless"):
                        chk.violate(f"dimunit:{name}", f"lookup_dimension_name of {d} names the unit {y[i_]!r}", text)
            for g, w, h in zip(y, want, what):
                if w is None and h == "find_dimension_by_exponents" and g not in ("~", lst(op[0])) or w is not None and g != w:
                    chk.violate(f"{h}:{text}", f"{h} on {text} is {g}, should be {w}", text)
    for c in cases:
        kind, a, b = c.meta
        name = {"type": lambda: f"types {a} and {b}", "num": lambda: f"N {a[:3]}..", "get": lambda: f"get_quantity_dimensions of {a} scale {b}", "err": lambda: f"reading {a.text} as {b.text}"}[kind]()
        if c.id in p.rejected:
            chk.violate("rejected:" + name, f"{name} does not compile: {p.rejected[c.id][0][1][:300]}", c.body); continue
        o = obs.get(c.id, {})
        bad = [f"{k}: {v}" for k, v in o.items() if v[0] != "ok"]
        if not o or bad or c.id in p.crashed:
            chk.violate("panic:" + name, f"{name}: {bad or p.crashed.get(c.id)}", c.body); continue
        chk.saw(name, n=len(o)); chk.count(kind)
        if kind == "type":
            want = {"v": lst(a), "c": lst(a), "d": lst(a), "z": str(not any(a)).lower(), "b": basis_of(a), "+": lst(add(a, b)), "-": lst(add(a, neg(b))), "d+": lst(add(a, b))}
        elif kind == "num":
            want = {"n": ",".join(f"{x + y},{x - y},{-x}" for x, y in a)}
        elif kind == "get":
            want = {"g": f"{lst(a)};{lst(b)}"}
        else:
            want = {}
            for k in "sjc":
                mismatch(chk, f"{name} ({k})", ["true", o[k][1]], b.u.dim, a.u.dim, c.body)
        for k, w in want.items():
            if kind == "num" and o[k][1] != w:
                g, w = ([int(z) for z in v.split(",")] for v in (o[k][1], w))
                for i, (x, y) in enumerate(zip(g, w)):
                    if x != y:
                        u, v = a[i // 3]
                        chk.violate(f"num:{u}:{v}:{i % 3}", f"type-level {('%d + %d', '%d - %d', '-(%d) [%d]')[i % 3] % (u, v)} is {x}, should be {y}", c.body)
                continue
            if o[k][1] != w:
                chk.violate(f"{kind}:{k}:{name}", f"{name}: {k} is {o[k][1]}, should be {w}", c.body)
    # tables
    T = {}
    for e in tab:
        T.setdefault(e[1], []).append(list(e[2:]))
    units = T.get("U", [])
    dim = {u[0]: tuple(eval(u[2])) for u in units}
    chk.count("table_units", len(units))
    if len(units) < 80 or not all(k in T for k in ("SI", "NSI", "N", "S", "B", "BD", "BB", "C", "Z")):
        raise common.Inconclusive(f"tables incomplete: {sorted(T)}")
    si, nsi = sorted(x[0] for x in T["SI"]), sorted(x[0] for x in T["NSI"])
    if sorted(si + nsi) != sorted(dim):
        chk.violate("table:partition", f"si_base_units and non_si_base_units together are not the units once each: {set(dim) ^ set(si + nsi)} {len(si)}+{len(nsi)}/{len(dim)}")
    for u in si:
        if basis_of(dim[u]) == "~":
            chk.violate(f"table:si:{u}", f"si_base_units lists {u}, of dimension {dim[u]}")
    for i, u in enumerate(("gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian")):
        if u not in si:
            chk.violate(f"table:base:{u}", f"si_base_units lacks {u}")
        if T["B"][i] != [str(i), u, lst(allones[i])]:
            chk.violate(f"table:bases:{u}", f"Unit::BASES[{i}] is {T['B'][i]}")
        if T["BD"][i][2] != lst(allones[i]) or T["BB"][i] != [str(i), AX[i], LET[i], lst(allones[i]), AX[i]]:
            chk.violate(f"table:basis:{u}", f"axis {i} is {T['BD'][i]} / {T['BB'][i]}")
        chk.saw(f"axis {i}")
    for i, v in T["C"]:
        if v != lst(allones[int(i)]):
            chk.violate(f"table:const:{i}", f"the constant of axis {i} is {v}")
    if T["Z"][0] != [lst((0,) * 8)] * 2 + ["true"]:
        chk.violate("table:zero", f"zero is {T['Z'][0]}")
    for key, want in (("N", [u[0] for u in units]), ("S", [s for u in units for s in u[1].split()])):
        if sorted(x[0] for x in T[key]) != sorted(want):
            chk.violate(f"table:list:{key}", f"Dimension::{'names' if key == 'N' else 'symbols'} lists {set(x[0] for x in T[key]) ^ set(want)} wrongly")
    return chk.finish(min_events=20000)


def mismatch(chk, name, got, a, b, case):
    """got: [fields right?, message]; the message must name units of dimensions a (expected) and b (got)"""
    m = got[1].removeprefix("Dimension mismatch: expected ").split(", got ") if len(got) == 2 else []
    if len(m) != 2 or got[0] != "true":
        chk.violate(f"mismatch:{name}", f"{name}: {'/'.join(got)!r} is no report of this mismatch", case); return
    for t, d, h in ((m[0], a, "expected"), (m[1], b, "got")):
        x = printed.read(t)
        if x is None or x[0] != d:
            chk.violate(f"mismatch-{h}:{name}", f"{name}: {got[1]!r} calls dimension {d} {t!r}", case)
