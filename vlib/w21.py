"""W21: the run-time unit lookups answer what a spelling means, or nothing."""
import itertools
from fractions import Fraction as F
import common, units as un
from common import Project, Case, rs_str

PRE = """use probe::*; use whippyunits_core::{Dimension,SiPrefix,Unit,get_unit_info}; use whippyunits::serialization::*;
fn px(p: Option<&SiPrefix>) -> String { p.map(|p| p.factor_log10().to_string()).unwrap_or("-".into()) }
fn look(t: &str) -> String {
  let none = || "~".to_string();
  let l = Dimension::find_by_literal(t).map(|(u,d,p)| format!("{},{},{}", u.name, d.name, px(p))).unwrap_or_else(none);
  let i = get_unit_info(t).map(|u| u.name.to_string()).unwrap_or_else(none);
  let y = Dimension::find_unit_by_symbol(t).map(|(u,d)| format!("{},{}", u.name, d.name)).unwrap_or_else(none);
  let n = Dimension::find_unit_by_name(t).map(|(u,d)| format!("{},{}", u.name, d.name)).unwrap_or_else(none);
  let b = Unit::multiple_to_base_unit(t).map(|(u,p)| format!("{},{}", u.name, px(p))).unwrap_or_else(none);
  let f = Unit::find_base(t).map(|u| u.name.to_string()).unwrap_or_else(none);
  let p = SiPrefix::from_symbol(t).map(|p| p.factor_log10().to_string()).unwrap_or_else(none);
  let ss = SiPrefix::strip_any_prefix_symbol(t).map(|(p,r)| format!("{},{}", p.factor_log10(), r)).unwrap_or_else(none);
  let sn = SiPrefix::strip_any_prefix_name(t).map(|(p,r)| format!("{},{}", p.factor_log10(), r)).unwrap_or_else(none);
  let d = Dimension::find_dimension(t).map(|d| d.name.to_string()).unwrap_or_else(none);
  [l,i,y,n,b,f,p,ss,sn,d].join("|")
}
fn dims(t: &str) -> String { let (d,s) = get_target_unit_dimensions(t); format!("{:?};{:?}", s.0, d.0) }
fn table() { for d in Dimension::ALL { ev(&["T","D",d.name,d.symbol,&format!("{:?}",d.exponents.0)]);
  for u in d.units { ev(&["T","U",u.name,&u.symbols.join(" "),&format!("{:?}",u.scale.0),&u.conversion_factor.bits(),&u.affine_offset.bits(),&format!("{:?}",u.exponents.0),d.name]); } }
  for p in SiPrefix::ALL { ev(&["T","P",p.name(),p.symbol(),&p.factor_log10().to_string()]); } }
"""
PNAME = {pn: pe for pn, ps, pe in un.PREFIXES}
PSYM = {ps: pe for pn, ps, pe in un.PREFIXES} | {"u": -6}
BASES = {"gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian"}
BASIS = {"Mass": "M", "Length": "L", "Time": "T", "Current": "I", "Temperature": "Θ", "Amount": "N", "Luminosity": "J", "Angle": "A"}


def readings(t):
    """every (unit name, prefix exponent) that the text literally spells"""
    out = set()
    for s in (t,) + ((t[:-1],) if t.endswith("s") else ()):
        for tab in (un.BY_SYMBOL, un.BY_NAME):
            if s in tab:
                out.add((tab[s].name, 0))
        for pre, pe in PSYM.items():
            if s.startswith(pre) and s[len(pre):] in un.BY_SYMBOL:
                out.add((un.BY_SYMBOL[s[len(pre):]].name, pe))
        for pre, pe in PNAME.items():
            if s[:1].lower() + s[1:] != s and not s[:1].isascii():
                continue
            if (s.startswith(pre) or s.startswith(pre.capitalize())) and s[len(pre):] in un.BY_NAME:
                out.add((un.BY_NAME[s[len(pre):]].name, pe))
    return out


def run(chk):
    chk.rule = "(lookup function, text): every spelling of every unit with every prefix, near misses and random text; distinct by text"
    chk.assumptions = ["a trailing plural s may be stripped"]
    r = chk.rng
    sps = un.spellings(names=True, caps=True)
    known = {s.text: s for s in sps}
    texts = [s.text for s in sps]
    near = set(PSYM) | set(PNAME) | {"", " ", "s", "ss", "µ", "μ", "Ω", "\u2126", "é", "kilo", "Kilo", "kilokilo", "da", "dad"}
    near |= {b for b in BASIS} | set(BASIS.values()) | {b.lower() for b in BASIS}
    syms = [x for u in un.CATALOGUE for x in (*u.symbols, u.name)]
    for pn, ps, pe in un.PREFIXES:
        for x in syms:
            near.add(ps + x); near.add(pn + x); near.add(pn.capitalize() + x)
    for s in sps:
        near.add(s.text + "s"); near.add(s.text + "ss"); near.add(s.text.capitalize())
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZµΩμ_ é🦀"
    for k in (1, 2, 3):
        near.update("".join(x) for x in itertools.product(al if k < 3 else al[:52], repeat=k) if k < 3 or chk.thorough or r.random() < .15)
    for x in syms + texts:
        i = r.randrange(len(x)); near.add(x[:i] + r.choice(al) + x[i + 1:]); near.add(x[:i] + x[i + 1:]); near.add(x[:i] + r.choice(al) + x[i:])
    near = sorted(x for x in near if x not in known and "\n" not in x and "\r" not in x)
    p = Project("W21", prelude=PRE)
    alltext = texts + near
    K = 8
    for k in range(K):
        with open(f"{p.dir}/l{k}.txt", "w") as f:
            f.write("".join(t + "\n" for t in alltext[k::K]))
        body = f""" for (i,t) in include_str!({rs_str(f"{p.dir}/l{k}.txt")}).split('\\n').enumerate() {{ let i = i.to_string(); s(id,&format!("l{{i}}"),||look(t)); s(id,&format!("d{{i}}"),||dims(t)); }}"""
        p.add_bin(f"b{k}", [Case(f"r{k}", body)] + ([Case("tab", " let _ = id; table();")] if k == 0 else []))
    p.build()
    obs, tab = {}, []
    for e in p.run(timeout=300):
        if e[0] == "T":
            tab.append(e)
        else:
            obs.setdefault(e[0], {})[e[1]] = e[2:]
    for cid, why in {**p.crashed, **{c: w[0][1] for c, w in p.rejected.items()}}.items():
        chk.violate(f"crash:{cid}", f"{why}")
    # the public tables: one owner per spelling, magnitudes and dimensions of the catalogue
    owner = {}
    dimexp = {e[2]: tuple(eval(e[4])) for e in tab if e[1] == "D"}
    for e in tab:
        if e[1] == "P":
            if PNAME.get(e[2]) != int(e[4]) or PSYM.get(e[3]) != int(e[4]):
                chk.violate(f"prefix:{e[2]}", f"prefix table has {e[2:]}")
        if e[1] != "U":
            continue
        _, _, name, sy, sc, cf, off, ex, dn = e
        for t in {*sy.split(), name}:
            if owner.setdefault(t, name) != name:
                chk.violate(f"shared:{t}", f"`{t}` spells both {owner[t]} and {name}")
        u = un.BY_NAME.get(name)
        if tuple(eval(ex)) != dimexp[dn]:
            chk.violate(f"table-dim:{name}", f"unit {name} of dimension {dn} {dimexp[dn]} has exponents {ex}")
        if u is None:
            chk.count("units_outside_catalogue"); continue
        mag = un.scale_value(tuple(eval(sc))) * F(un.f64(cf))
        if un.rel_err(1.0, mag / u.value) > 1e-12 + un.LOOSE.get(name, 0):
            chk.violate(f"table-mag:{name}", f"unit {name}: scale {sc} times {un.f64(cf)} is {float(mag)}, should be {float(u.value)}")
        chk.saw(f"table:{name}")
    nt = sum(e[1] == "U" for e in tab)
    for k in range(K):
        o = obs.get(f"r{k}", {})
        for i, t in enumerate(alltext[k::K]):
            x = o.get(f"l{i}")
            if x is None:
                continue
            sp = known.get(t)
            chk.saw(t, n=11, sample={"text": t, "lookups": x[1]} if len(x) > 1 and not x[1].startswith("~") and r.random() < .002 else None)
            if x[0] != "ok":
                chk.violate(f"panic:{t!r}", f"looking up {t!r} panics: {x[1]}", t); continue
            L, I, Y, N, B, FB, P, SS, SN, D = x[1].split("|")
            rd = readings(t)
            # find_by_literal
            if L != "~":
                n_, _, p_ = L.rsplit(",", 2)
                got = (n_, 0 if p_ == "-" else int(p_))
                if sp is not None and got != (sp.u.name, sp.p) or got not in rd:
                    chk.violate(f"find_by_literal:{t}", f"find_by_literal({t!r}) is {L}, the text spells {sorted(rd) or 'no unit'}", t)
                chk.count("found")
            elif sp is not None:
                chk.violate(f"find_by_literal:{t}", f"find_by_literal({t!r}) finds nothing, it is the {sp.u.name}", t)
            # get_unit_info: the unit without its prefix
            if sp is not None:
                if I != sp.u.name:
                    chk.violate(f"get_unit_info:{t}", f"get_unit_info({t!r}) is {I}, should be {sp.u.name}", t)
            elif I != "~" and I not in {n_ for n_, _ in readings(t)}:
                chk.violate(f"get_unit_info:{t}", f"get_unit_info({t!r}) is {I}, the text spells {sorted(rd) or 'no unit'}", t)
            for fn, got, tb in (("find_unit_by_symbol", Y, un.BY_SYMBOL), ("find_unit_by_name", N, un.BY_NAME)):
                want = tb[t].name if t in tb else "~"
                if got.split(",")[0] != want and not (want == "~" and owner.get(t) == got.split(",")[0]):
                    chk.violate(f"{fn}:{t}", f"{fn}({t!r}) is {got}, should be {want}", t)
            # multiple_to_base_unit, find_base
            want = {f"{n_},{p_ or '-'}" for n_, p_ in readings(t) if n_ in BASES}
            if B != "~" and (B not in want or t.endswith("ss")):
                chk.violate(f"multiple_to_base_unit:{t}", f"multiple_to_base_unit({t!r}) is {B}", t)
            if B == "~" and sp is not None and sp.u.name in BASES and t in ([sp.u.name] + [pn + sp.u.name for pn in PNAME]):
                chk.violate(f"multiple_to_base_unit:{t}", f"multiple_to_base_unit({t!r}) finds nothing", t)
            u = un.BY_SYMBOL.get(t)
            if FB != (u.name if u is not None and u.name in BASES else "~"):
                chk.violate(f"find_base:{t}", f"find_base({t!r}) is {FB}", t)
            # prefixes
            if P != str(PSYM.get(t, "~")):
                chk.violate(f"from_symbol:{t}", f"SiPrefix::from_symbol({t!r}) is {P}", t)
            for fn, got, tb in (("symbol", SS, PSYM), ("name", SN, PNAME)):
                ok = {f"{pe},{t[len(q):]}" for q, pe in tb.items() if t.startswith(q) or fn == "name" and t.startswith(q.capitalize())}
                if got != "~" and got not in ok or got == "~" and any(not z.endswith(",") for z in ok):
                    chk.violate(f"strip_{fn}:{t}", f"strip_any_prefix_{fn}({t!r}) is {got}, should be one of {sorted(ok)}", t)
            if (t in BASIS or t in BASIS.values()) and BASIS.get(D) != BASIS.get(t, t):
                chk.violate(f"find_dimension:{t}", f"find_dimension({t!r}) is {D}", t)
            # dimensions of a unit literal: known spellings right, everything else refused loudly or a known reading
            y = o.get(f"d{i}")
            if y[0] == "ok":
                s, d = (tuple(eval(z)) for z in y[1].split(";"))
            if sp is not None and sp.u.name != "lumen":
                if y[0] != "ok":
                    chk.violate(f"dims:{t}", f"get_target_unit_dimensions({t!r}) panics: {y[1]}", t)
                elif d != sp.u.dim or sp.u.storage and un.scale_value(s) != sp.value:
                    chk.violate(f"dims:{t}", f"get_target_unit_dimensions({t!r}) is scale {s} dimension {d}, should be {float(sp.value)} {sp.u.dim}", t)
    chk.coverage["table_units"] = nt
    if nt < 80:
        raise common.Inconclusive(f"only {nt} units in the table")
    return chk.finish(min_events=100000)
