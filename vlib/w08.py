"""W08: every spelling of every unit, in every declaration form, against the independent catalogue."""
import itertools
from fractions import Fraction as F
import common, units as un
from common import Project, Case, rs_str

PRE = """use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity,value}; use probe::*;
use whippyunits::default_declarators::*; use whippyunits::default_declarators as dd;
use whippyunits::serialization::parse_ucum_unit;
fn rt(t:&str)->String{ match parse_ucum_unit(t) { Ok((d,s)) => format!("{:?};{:?}", s.0, d.0), Err(e)=>format!("error {:?}",e) } }
"""
CULIT = "#[culit::culit(whippyunits::default_declarators::literals)]"


LM = (0, -2, 0, 0, 0, 0, 1, 0)


def lumen(chk, sp, d):
    """the one way in which the lumen is known to be wrong (see known_findings.json)"""
    if sp.u.name == "lumen" and d == LM:
        chk.violate("lumen-is-an-illuminance", "the lumen (lm), a luminous flux, is given the dimension of illuminance, cd/m^2", None)
        return True
    return False


def camel(s):
    return s[0].upper() + s[1:]


def run(chk):
    chk.rule = ("(spelling, declaration form): quantity!, unit!, method, type alias, float and integer literal, run-time text; spellings are all "
                "symbols and names of the catalogue, with every permitted prefix; plus near-miss spellings that must be rejected; distinct by (form, spelling)")
    chk.assumptions = ["catalogue definitions: long ton, US customary volumes, year = tropical 31556926 s, month = 30 d, thermochemical calorie, US therm",
                       "values to 1e-12 relative (parsec 1e-9)", "literals that rustc's lexer cannot read (suffix starting with e/E) are skipped"]
    r = chk.rng
    sps = un.spellings(names=True, caps=True)
    known = {s.text: s for s in sps}
    cases, n = [], 0
    must = {}

    def add(form, sp, body, attr="", required=True):
        nonlocal n
        cid = f"k{n}"; n += 1
        cases.append(Case(cid, body, (form, sp), attr=attr))
        must[cid] = required
    for sp in sps:
        t = sp.text
        if un.macro_ok(t):
            b = f" q(id,\"a\",||quantity!(1.0, {t})); q(id,\"b\",||quantity!(3.5, {t}));"
            if chk.thorough or sp.p == 0 or r.random() < .4:
                b += f" v(id,\"v\",||value!(quantity!(3.5, {t}), {t}));"
            add("quantity!", sp, b)
            if sp.u.storage:
                add("unit!", sp, f" ev(&[id,\"t\",\"ok\",&ty::<unit!({t})>()]);")
    # methods and aliases
    for u in un.CATALOGUE:
        plist = [("", "", 0)] + (un.PREFIXES if u.prefix else [])
        for pn, ps, pe in plist:
            sp = un.Sp(pn + u.name, u, pe, "method")
            add("method", sp, f" q(id,\"a\",||1.0f64.{pn}{u.plural}()); q(id,\"b\",||3.5f64.{pn}{u.plural}());")
            if u.storage and not u.affine:
                add("alias", sp, f" ev(&[id,\"t\",\"ok\",&ty::<dd::{camel(pn + u.name)}>()]);", required=False)
            if not u.affine and u.storage:
                add("imethod", sp, f" q(id,\"a\",||1i32.{pn}{u.plural}()); q(id,\"b\",||7i32.{pn}{u.plural}());")
    # prefixed methods of units that are not listed as taking prefixes: right or absent
    for u in un.CATALOGUE:
        if not u.prefix and u.storage and not u.affine:
            for pn, ps, pe in (un.PREFIXES if chk.thorough else r.sample(un.PREFIXES, 5)):
                sp = un.Sp(pn + u.name, u, pe, "method")
                if pn + u.name in known:
                    continue
                add("method", sp, f" q(id,\"a\",||1.0f64.{pn}{u.plural}()); q(id,\"b\",||3.5f64.{pn}{u.plural}());", required=False)
    # literals
    for sp in sps:
        t = sp.text
        if sp.kind in ("name", "prefixed-name") and sp.u.storage and not sp.u.affine:
            continue
        if t[0] in "eE" or (not un.macro_ok(t) and t not in un.KEYWORDS):
            continue
        req = sp.kind == "symbol" and un.macro_ok(t)
        if sp.kind == "symbol" or chk.thorough or r.random() < .5:
            add("literal", sp, f" q(id,\"a\",||1.0{t}); q(id,\"b\",||3.5{t});", CULIT, req)
            if sp.u.storage:
                add("iliteral", sp, f" q(id,\"a\",||1{t}); q(id,\"b\",||7{t});", CULIT, req)
    p = Project("W08", prelude=PRE, deps='culit = "0.6.0"\n')
    # run-time text: every spelling, then every near miss
    texts = [s.text for s in sps]
    near = set()
    syms = [x for u in un.CATALOGUE for x in (*u.symbols, u.name)]
    for pn, ps, pe in un.PREFIXES:
        for x in syms:
            near.add(ps + x); near.add(pn + x); near.add(ps + ps + x)
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZµΩμΩ_"
    for k in (1, 2) if not chk.thorough else (1, 2, 3):
        near.update("".join(x) for x in itertools.product(al, repeat=k))
    near.update("".join(r.choice(al) for _ in range(r.randint(3, 6))) for _ in range(5000))
    for x in syms:
        near.update((x + "s", x[:-1], x.upper(), x.lower(), x.capitalize(), x + "_", "_" + x, x * 2))
        for _ in range(3):
            i = r.randrange(len(x)); near.add(x[:i] + r.choice(al) + x[i + 1:]); near.add(x[:i] + x[i + 1:])
    near = sorted(x for x in near if x and x not in known)
    alltext = texts + near
    K = 8
    for k in range(K):
        with open(f"{p.dir}/rt{k}.txt", "w") as f:
            f.write("".join(t + "\n" for t in alltext[k::K]))
        rc = Case(f"r{k}", " for (i,t) in include_str!(%s).lines().enumerate() { s(id,&i.to_string(),||rt(t)); }" % rs_str(f"{p.dir}/rt{k}.txt"))
        p.add_bin(f"b{k}", cases[k::K] + [rc])
    p.build(max_rounds=6)
    chk.log(f"{len(cases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs = {}
    for e in p.run(timeout=120):
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    # compile-time near misses
    rej, acc = {}, 0
    for c in cases:
        form, sp = c.meta
        tol = 1e-12 + un.LOOSE.get(sp.u.name, 0)
        if c.id in p.rejected:
            rej.setdefault(form, []).append(sp.text)
            if must[c.id]:
                chk.violate(f"rejected:{form}:{sp.text}", f"{form} `{sp.text}` does not compile: {p.rejected[c.id][0][1][:160]}", c.body)
            continue
        o = obs.get(c.id, {})
        if not o or "PANIC" in o:
            chk.violate(f"crash:{form}:{sp.text}", f"{o} {p.crashed.get(c.id)}", c.body); continue
        if "t" in o:
            e = tuple(int(x) for x in o["t"][1].split(";")[0].split(","))
            if e[4:] != sp.u.dim and not lumen(chk, sp, e[4:]):
                chk.violate(f"dim:{form}:{sp.text}", f"{form} {sp.text} has dimension {e[4:]}, should be {sp.u.dim}", c.body)
            elif not sp.u.affine and (un.scale_value(e[:4]) != sp.value or e[3] != sp.u.pi):
                chk.violate(f"scale:{form}:{sp.text}", f"{form} {sp.text} has scale {e[:4]} = {float(un.scale_value(e[:4]))}, should be {float(sp.value)}", c.body)
            chk.saw(f"{form}:{sp.text}")
            continue
        for k, num in (("a", 1), ("b", F(7) if form in ("imethod", "iliteral") else F("3.5"))):
            if o[k][0] != "ok":
                chk.violate(f"panic:{form}:{sp.text}", f"{o[k]}", c.body); continue
            q = un.Q(o[k][1])
            want = (num + sp.u.off) * sp.value
            if q.dim != sp.u.dim and not lumen(chk, sp, q.dim):
                chk.violate(f"dim:{form}:{sp.text}", f"{form} {num} {sp.text} has dimension {q.dim}, should be {sp.u.dim}", c.body); break
            if un.rel_err(1.0, q.si / want) > tol:
                chk.violate(f"mag:{form}:{sp.text}", f"{form} {num} {sp.text} amounts to {float(q.si)} SI, should be {float(want)}", c.body); break
            if sp.u.storage and not sp.u.affine and F(q.num) != num:
                chk.violate(f"stored:{form}:{sp.text}", f"{form} {num} {sp.text} stored as {q.num}", c.body)
            if sp.u.storage and not sp.u.affine and q.scale[3] != sp.u.pi:
                chk.violate(f"pi:{form}:{sp.text}", f"scale {q.scale}", c.body)
            chk.saw(n=1)
        if "v" in o and (o["v"][0] != "ok" or un.rel_err(un.f64(o["v"][1].split(";")[1]), F("3.5")) > 1e-12):
            # reading back; zero points cost absolute accuracy
            if not (sp.u.affine and o["v"][0] == "ok" and abs(un.f64(o["v"][1].split(";")[1]) - 3.5) < 1e-9):
                chk.violate(f"readback:{sp.text}", f"value!(quantity!(3.5, {sp.text}), {sp.text}) = {o['v']}", c.body)
        chk.distinct.add(f"{form}:{sp.text}")
        if len(chk.samples) < 6 and sp.p and r.random() < .02:
            chk.samples.append({"form": form, "spelling": sp.text, "observed": list(o["a"])})
    for k in range(K):
        o = obs.get(f"r{k}", {})
        if f"r{k}" in p.crashed:
            chk.violate("rt-crash", f"run-time reading crashed near {alltext[k::K][len(o):][:1]}: {p.crashed[f'r{k}']}")
        for i, t in enumerate(alltext[k::K]):
            x = o.get(str(i))
            if x is None:
                continue
            sp = known.get(t)
            chk.saw(n=1)
            if x[0] != "ok":
                chk.violate(f"rt-panic:{t}", f"reading unit text `{t}` panics: {x[1]}"); continue
            if x[1].startswith("error"):
                if sp is not None:
                    chk.violate(f"rt-rejected:{t}", f"unit text `{t}` is not read")
                else:
                    chk.count("near_misses_rejected")
                continue
            s, d = (tuple(eval(z)) for z in x[1].split(";"))
            if sp is None:
                ok = ok_near(t, s, d)
                if ok is None:
                    chk.violate(f"rt-accepted:{t}", f"unit text `{t}` is no unit but is read as scale {s} dimension {d}")
                elif not ok:
                    chk.violate(f"rt-misread:{t}", f"unit text `{t}` is read as scale {s} dimension {d}")
                else:
                    chk.count("near_misses_read_correctly")
                continue
            if (d != sp.u.dim and not lumen(chk, sp, d)) or (sp.u.storage and not sp.u.affine and (un.scale_value(s) != sp.value or s[3] != sp.u.pi)):
                chk.violate(f"rt-unit:{t}", f"unit text `{t}` is read as scale {s} dimension {d}; should be {float(sp.value)} {sp.u.dim}")
            chk.distinct.add("text:" + t)
    for f, l in rej.items():
        chk.coverage[f"not_offered_{f}"] = len(l)
    chk.coverage["spellings"] = len(sps)
    return chk.finish(min_events=8000)


NFC = {"\u2126": "\u03a9", "\u03bc": "\u00b5"}
BYSP = {s.text: s for s in un.spellings(names=True, caps=True)}


def ok_near(t, s, d):
    """An accepted text outside the catalogue's spellings: is it a recognisable spelling (other normal form,
    prefix on a unit not listed as taking one, implicit power) and read correctly?  None = not a unit at all."""
    c = "".join(NFC.get(ch, ch) for ch in t)
    if c == "1":
        return s == (0,) * 4 and d == (0,) * 8
    if c in BYSP:
        sp = BYSP[c]
        return (d == sp.u.dim or sp.u.name == "lumen" and d == LM) and (not sp.u.storage or un.scale_value(s) == sp.value)
    for pn, ps, pe in un.PREFIXES:
        for pre, tab in ((ps, un.BY_SYMBOL), (pn, un.BY_NAME)):
            u = tab.get(c[len(pre):]) if c.startswith(pre) else None
            if u is not None and not u.affine:
                if (d == u.dim or u.name == "lumen" and d == LM) and (not u.storage or un.scale_value(s) == u.value * F(10) ** pe):
                    return True
                return False
    return None
