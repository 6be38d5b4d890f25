"""W22: the macros refuse what has no meaning with a diagnostic, never a crash, and suggest only what they accept.
Every invocation is expanded by the real compiler; the monitor reads the compiler's messages, attributed to the invocation by span."""
import re
import common, units as un, expr as ex, reader, printed
import w16
from common import Project, Case

PRE = "use whippyunits::quantity::*; use whippyunits::*; use probe::*;"
BASE = ["Kilogram", "Meter", "Second", "Ampere", "Kelvin", "Mole", "Candela", "Radian"]
KW = set("as in if do fn let for mod mut pub ref use box dyn gen try abstract async await become break const continue crate else enum extern false final impl loop macro match move "
         "override priv return self Self static struct super trait true type typeof unsafe unsized virtual where while yield union".split())
UNIT = {
    "unit": "let _x: Option<unit!({a})> = None;",
    "unit-typed": "let _x: Option<unit!({a}, i32)> = None;",
    "quantity": "let _x = quantity!(1.0, {a});",
    "quantity-typed": "let _x = quantity!(1, {a}, i32);",
    "value": "let _x = value!(quantity!(1.0, {a}), {a});",
    "value-other": "let q = quantity!(1.0, m); let _x: f64 = value!(q, {a});",
    "from_string": "let _x = from_string!(\"1 m\", {a});",
    "from_json": "let _x = from_json!(\"{{}}\", {a});",
    "local_unit": "let _x: Option<local_unit!({a}, " + ", ".join(BASE) + ")> = None;",
}
# no reading exists for these
MALFORMED = ["", "m*", "*m", "m/", "/", "m^", "m/ /s", "m^x", "m^1.5", "m^99999999999", "m^-99999999999", "m^99999", "2", "3m", "7*m", "m m", "m s", "'m'", "'m", "\"m\"", "m+s", "m-s", "1.5", "10^x",
             "m::n", "m<n>", "m!", "m[0]", "m()", "-m", "&m", "!m", "m;s", "m=s", "m,5", "m,,f64", "m, f64, 5", "()", "(m*)", "m*()", "m^^2", "m**s", "m|s", "m%s", "#m", "$", "m?", "m@s", "10^", "^2", "m:f64", "{m}"]
OVERSIZE = ["m^9999", "m^-9999", "m^32767*m^32767", "km^200*km^200", "Pm^700", "m^32767", "(m^180)^180", "m9999", "kg32767", "m^20000/s^20000*m^20000", "(m*m^32766)*m", "ly^30000", "10^40000", "10^99999*m"]
# whether these have a reading is nobody's business here: they must only not crash the compiler
ANY = ["r#m", "r#m2", "r#type", "_", "_2", "__", "m_", "m_2", "self", "crate", "true", "é", "µ", "Ω", "ǆ", "1u8", "10u8*m", "0x10", "1e3", "10.0", "1_0", "007", "0", "10^-3", "10^-400", "10^10^10", "1^5", "b'a'", "c\"x\"",
       "m^2^3", "m^(2)", "m^-(2)", "m^+2", "m^--2", "m^0", "m0", "m00", "m^02", "m.s", "m .s", "m. s", "m.2", "1.m", "2.m", "m..s", "m...s", "m//s\n", "m/*x*/s", "power_of_10", "dimensionless", "power_of_10^2", "m^0x2", "m^2u8", "m^2i16", "m^1_0",
       "((((m))))", "(m)(s)", "m(s)", "10m", "1m", "10*10", "10^2*10^3", "m/10", "1/m", "0*m", "m*1", "m/1", "r#in", "r#as", "K2K", "m2s", "m2s2", "2m2", "²", "m²", "m^²", "℃", "Å", "K", "$crate", "$crate::m", "m as s"]
G_MALFORMED = ["L*", "*L", "L^", "L^x", "L^1.5", "2", "5L", "L+M", "L-M", "L M", "Length Mass", "L/ /T", "-L", "L^99999", "L^-99999", "\"L\"", "'L'", "L!", "L[0]", "(L", "L,,M", "L;M", "()", "(L*)", "L&M", "L=M", "0", "1.0"]
G_OVERSIZE = ["L^32767*L^32767", "L^-32767/L^32767/L", "(L^200)^200", "Force^20000", "(L*L^32766)*L", "Θ^32767.Θ", "L^32767 / L^-1 / T", "(Area^2)^16000"]
G_ANY = ["r#L", "r#L2", "r#type", "r#type2", "_", "_2", "L_2", "L02", "L2L", "L999999", "L0", "L^0", "L^00", "1/T", "1^2", "(1)", "L2^2", "self", "Self", "crate", "é", "L²", "Θ2", "$crate", "L^0x2", "L^2u8", "T^-1", "10", "1u8", "L^(2)", "L^2^2"]


def typo(r, s):
    """a misspelling of s, of one or two slips"""
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(s) + 1)
        c = r.choice("abcdefghiklmnopqrstuxyz")
        k = r.random()
        if k < .35 and s:
            s = s[:i] + c + s[i:]
        elif k < .6 and len(s) > 2:
            s = s[:max(0, i - 1)] + s[i:]
        elif k < .8 and len(s) > 2 and i + 1 < len(s):
            s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
        elif k < .9:
            s = s + r.choice("sse")
        elif s:
            s = s[0].swapcase() + s[1:]
    return s


def ident(s):
    return s.isidentifier() and s not in KW and not re.search(r"[0-9_]", s)


def scale_names():
    """{scale identifier: base dimension index} of every unit of the eight base dimensions"""
    out = {}
    for u in un.CATALOGUE:
        if sum(map(abs, u.dim)) == 1 and sum(u.dim) == 1:
            i = u.dim.index(1)
            out["".join(w.capitalize() for w in re.split("[ _]", u.name))] = i
    first = ["gram", "meter", "second", "ampere", "kelvin", "mole", "candela", "radian"]
    for pn, _, _ in un.PREFIXES:
        for i, f in enumerate(first):
            out[(pn + f).capitalize()] = i
    return out


def run(chk):
    r = chk.rng
    T = chk.thorough
    chk.rule = ("one macro invocation each: misspelt, malformed, oversized, odd-token and valid arguments of every unit and dimension macro, with every suggestion offered tried in the same place; "
                "distinct by (macro, argument)")
    chk.assumptions = ["messages are attributed to the invocation by their primary span or macro backtrace", "names with digits or underscores are not used as misspellings",
                       "arguments that may have a reading (raw identifiers, literal suffixes, nested exponents) are watched for crashes only", "dev-profile procedural macros (overflow checks on)"]
    known = set(un_names())
    names = [s for s in known if len(s) > 1]
    words = [s for s in names if len(s) > 3]
    stor = [s for s in un.spellings(names=True) if s.u.storage and not s.u.affine and un.macro_ok(s.text) and s.u.name != "lumen"]
    cases, meta = [], {}

    def add(macro, arg, want, body, items="", unknown=None, src=None):
        cid = f"c{len(meta)}"
        c = Case(cid, body, None, items)
        cases.append(c); meta[cid] = (macro, arg, want, unknown, src)
        return c

    def u(macro, arg, want, unknown=None, src=None):
        return add(macro, arg, want, UNIT[macro].replace("{a}", arg).replace("{{}}", "{}"), unknown=unknown, src=src)

    def unknown_name(pool=None):
        while True:
            t = typo(r, r.choice(pool or (words if r.random() < .75 else names)))
            if ident(t) and t not in known and reader.read(t) is None:
                return t

    def wrap(t):
        """an expression around t"""
        a, b = r.choice(stor).text, r.choice(stor).text
        return r.choice([f"{t}", f"{t}", f"{a}*{t}", f"{t}/{a}", f"{a}/{t}^2", f"{a}*{b}/{t}", f"({a}/{t})^-1", f"{a}^2*{t}^3", f"10^3*{t}", f"{t}.{a}", f"1/{t}", f"({t})",
                         f"{t}^0", f"{a}*{t}^0", f"({a}*{t})^0", f"{t}/{t}", f"{a}*{t}/{t}", f"({t}/{b})^0*{a}", f"{t}^-1*{a}"])
    macros = list(UNIT)
    for i in range(70 if not T else 700):
        t = unknown_name()
        for m in (macros if T else r.sample(macros, 3) + ["local_unit"]):
            a = wrap(t) if m != "local_unit" or r.random() < .2 else t
            u(m, a, "reject", t, a == t and m)
    for m in macros:
        for a in MALFORMED:
            if m in ("from_string", "from_json", "local_unit", "value", "quantity-typed", "unit-typed") and re.search(r"[,;]", a):
                continue
            u(m, a, "reject")
        for a in OVERSIZE:
            u(m, a, "reject-or" if a.startswith("10^") else "reject")
        for a in ANY:
            if re.search(r"//|/\*|'(?!.')", a) and m not in ("unit", "quantity", "local_unit"):
                continue
            u(m, a, "any")
        for _ in range(12 if not T else 200):
            e = ex.rand(r, lambda: r.choice(stor), 2)
            fs = ex.factors(e)
            if ex.flog(fs)[1] < 60 and max(map(abs, ex.fdim(fs))) < 30:
                u(m, ex.render(r, e, "trad"), "accept" if m != "value-other" else "any")
    # dimension expressions
    dnames = {**w16.NAMES, **w16.DERIVED}
    alldim = set(dnames) | set(printed.DIMNAME)

    def g(arg, want, unknown=None, src=None):
        k = len(meta)
        return add("generic", arg, want, "", f"mod g{k} {{ whippyunits_proc_macros::define_generic_dimension!(Dim{k}, {arg}); }}", unknown, src)
    for i in range(60 if not T else 600):
        while True:
            t = typo(r, r.choice([x for x in dnames if len(x) > 2]))
            if ident(t) and t not in alldim:
                break
        a = r.choice([t, t, t, f"L*{t}", f"{t}/T^2", f"(Mass.{t})^2", f"Force, {t}", f"{t}, L", f"{t}^0", f"L*{t}^0", f"L*{t}/{t}", f"(L*{t})^0", f"L, T, M*{t}"])
        g(a, "reject", t, "generic" if a == t else None)
    for a in G_MALFORMED:
        g(a, "reject")
    for a in G_OVERSIZE:
        g(a, "reject")
        g("L, " + a, "reject")
    for a in G_ANY:
        g(a, "any")
    for _ in range(40 if not T else 400):
        g(w16.expr(r)[0], "accept")
    # scale-preferred declarators
    scales = scale_names()

    def d(args, want, unknown=None, src=None, tail=""):
        k = len(meta)
        return add("declarators", args, want, "", f"whippyunits::define_unit_declarators!(ns{k}{args});", unknown, src)

    def with_scale(i, s, brand=False):
        l = list(BASE); l[i] = s
        return ", " + ("Brand, " if brand else "") + ", ".join(l)
    slots = list(range(8)) * (2 if not T else 12)
    custom = {}
    for u_ in un.CATALOGUE:
        if sum(map(abs, u_.dim)) == 1 and sum(u_.dim) == 1:
            custom.setdefault(u_.dim.index(1), []).append(u_.name.replace("_", ""))
    for i in r.choices(range(8), k=14 if not T else 60):        # prefixed names that are no scale, and slips in them
        t = r.choice([pn for pn, _, _ in un.PREFIXES]).capitalize() + r.choice(custom[i])
        t = r.choice([t, t + "s", typo(r, t)])
        if ident(t) and t not in scales:
            d(with_scale(i, t, r.random() < .4), "reject", t, ("scale", i))
    for i in slots:
        while True:
            own = [x for x, j in scales.items() if j == i]
            t = typo(r, r.choice(own if r.random() < .7 else ["Newton", "Joule", "Gallon", "Hertz", "Acre", "Pascal", "Knot", "Foot", "Watt"]))
            if r.random() < .15:
                t = r.choice(["Newton", "Joule", "Gallon", "Hertz", "Acre", "Pascal", "Watt", "Liter", "Volt", "Kilometers", "meter", "kg", "m", "Km"])
            if ident(t) and t not in scales:
                break
        d(with_scale(i, t, r.random() < .4), "reject", t, ("scale", i))
    for i in r.sample(range(8), 3 if not T else 8):        # a scale of another dimension
        s = r.choice([x for x, j in scales.items() if j != i and re.match("(Kilo|Milli|Micro|Mega|Centi)[a-z]+$", x)])
        d(with_scale(i, s), "reject")
    for a in [", Br, Kilogram", ", Kilogram, Meter", ", 5", ", , Br", ", Br,,", with_scale(0, "Kilogram", True) + ", Second", ", " + ", ".join(BASE[:7]), ", Kilogram+Meter", " Br", "; Br",
              ", \"Kilogram\"", with_scale(3, "2"), with_scale(3, "\"Ampere\""), with_scale(3, "A m p"), with_scale(5, "Mole::x"), with_scale(7, ""), ", " + ", ".join(BASE) + ", 5"]:
        d(a, "reject")
    for _ in range(2 if not T else 10):
        i = r.randrange(8)
        d(with_scale(i, r.choice([x for x, j in scales.items() if j == i and re.match("(Kilo|Milli|Micro|Mega|Centi|Nano)[a-z]+$", x)]), r.random() < .5), "accept")
    deps = f'whippyunits-proc-macros = {{ path = "{common.REPO}/proc-macros" }}\nserde_json = "1"\n'
    p = Project("W22", prelude=PRE, deps=deps)
    p.spread(cases, 8)
    p.build(max_rounds=6)
    chk.log(f"built in {p.build_s:.1f}s; {len(cases)} invocations")
    offered = {}
    for c in cases:
        macro, arg, want, unknown, src = meta[c.id]
        rj = p.rejected.get(c.id)
        name = f"{macro}!({arg})"
        sig = f"{macro}:{arg}"
        chk.saw((macro, arg))
        chk.count(f"{macro}_{'rejected' if rj else 'accepted'}")
        case = {"macro": macro, "argument": arg, "program": c.items + c.body, "messages": [x[2] for x in rj or []][:3]}
        crash = [x[1] for x in rj or [] if re.search(r"panicked|internal compiler error|overflow evaluating|recursion limit", x[1])]
        if crash:
            chk.violate("crash:" + sig, f"{name}: {crash[0]}", case); continue
        if want == "reject" and not rj:
            chk.violate("accepted:" + sig, f"{name} has no meaning but is accepted", case); continue
        if want == "accept" and rj:
            chk.violate("refused:" + sig, f"{name} is refused: {rj[0][1][:200]}", case); continue
        if unknown and not any(re.search(r"(?<!\w)" + re.escape(unknown) + r"(?!\w)", x[1]) for x in rj):
            chk.violate("unnamed:" + sig, f"{name} is refused, but no message names {unknown!r}: {[x[1][:120] for x in rj][:3]}", case); continue
        if unknown:
            chk.count("unknown_names_named")
        for x in rj or []:
            m = re.search(r"Unknown (?:unit|dimension|scale identifier) '([^']*)'\. Did you mean: (.*)\?", x[1], re.S)
            if m:
                l = re.findall(r"'([^']*)'", m.group(2))
                chk.count("messages_with_suggestions")
                if not l:
                    chk.violate("empty:" + sig, f"{name}: {x[1]!r} suggests nothing", case)
                for s in l:
                    if src:
                        offered.setdefault((src, s), (name, x[1], case))
        if r.random() < .01:
            chk.samples.append({"invocation": name, "messages": [x[1][:200] for x in rj or []]})
    # every suggestion, in the place it was suggested for
    items = list(offered.items())
    r.shuffle(items)
    decl = [x for x in items if isinstance(x[0][0], tuple)]
    rest = [x for x in items if not isinstance(x[0][0], tuple)]
    items = rest[:400 if not T else 4000] + decl[:24 if not T else 160]
    base = len(cases); todo = []
    del cases[:]
    for (src, s), (name, msg, case) in items:
        if src == "generic":
            c = g(s, "accept")
        elif isinstance(src, tuple):
            c = d(with_scale(scales.get(s, src[1]), s), "accept")
        else:
            c = u(src, s, "accept")
        todo.append((c, s, name, msg, case))
    p2 = Project("W22s", prelude=PRE, deps=deps)
    if cases:
        p2.spread(cases, 8)
        p2.build(max_rounds=6)
    for c, s, name, msg, case in todo:
        chk.saw(("suggestion", meta[c.id][0], s))
        chk.count("suggestions_tried")
        if s in KW:
            chk.count("suggestions_that_are_keywords"); continue
        rj = p2.rejected.get(c.id)
        if rj:
            chk.violate(f"suggested:{meta[c.id][0]}:{s}", f"{name}: {msg!r}, but {s!r} is refused there too: {rj[0][1][:160]}", dict(case, tried=c.items + c.body))
    return chk.finish(min_events=900)


def un_names():
    for s in un.spellings(names=True, caps=True):
        yield s.text
