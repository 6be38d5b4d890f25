"""W16: generic dimensions. Trait membership is observed at run time (an inherent constant exists exactly when the bound holds)
for quantity types at and around each dimension expression; the expected answer comes from an independent evaluation."""
import gen, units as un, printed
from common import Project, Case

PRE = r"""
use whippyunits::quantity::*; use whippyunits::{unit,quantity}; use probe::*; use whippyunits::dimension_traits::define_generic_dimension;
use whippyunits::dimension_traits as dt; use core::marker::PhantomData;
pub struct W<T:?Sized>(PhantomData<T>);
pub trait No { const V: bool = false; } impl<T:?Sized> No for W<T> {}
"""
ATOM = [("Mass", "M"), ("Length", "L"), ("Time", "T"), ("Current", "I"), ("Temperature", "Θ"), ("Amount", "N"), ("Luminosity", "J"), ("Angle", "A")]
EXTRA = {"θ": 4, "Cd": 6}


def unit(i, n=1):
    return tuple(n if j == i else 0 for j in range(8))


NAMES = {s: unit(i) for i, p in enumerate(ATOM) for s in p}
NAMES.update({s: unit(i) for s, i in EXTRA.items()})
DERIVED = {n: d for n, d in printed.DIMNAME.items() if n.isidentifier() and n not in NAMES and any(d)}


def addv(a, b, k=1):
    return tuple(x + k * y for x, y in zip(a, b))


def expr(r):
    """(text, dims) of a documented dimension expression"""
    def power():
        if r.random() < .06:
            return "1", (0,) * 8
        pool = NAMES if r.random() < .85 else DERIVED
        s = r.choice(list(pool)); d = pool[s]
        c = r.random()
        if c < .35:
            return s, d
        n = r.choice([2, 2, 3, 4, 1, 10, 12])
        if c < .6:
            return f"{s}{n}", tuple(x * n for x in d)
        n = r.choice([n, -n, -1, 0 if r.random() < .2 else 2])
        return f"{s}^{n}", tuple(x * n for x in d)

    def product():
        n = r.choice([1, 1, 2, 2, 3, 4])
        t, d = power()
        for _ in range(n - 1):
            u, e = power()
            if u == "1" or t.endswith("1") and t[-2:-1] in ("", ".", "*", " ", "("):
                op = " * "
            else:
                op = r.choice([".", " * ", "*", " . "])
            t, d = t + op + u, addv(d, e)
        return t, d
    t, d = product()
    if r.random() < .08:
        k = r.choice([2, 3, -1, -2])
        if r.random() < .5:
            u, e = product(); t, d = f"{t} / {u}", addv(d, e, -1)
        t, d = f"({t})^{k}", tuple(x * k for x in d)
    if r.random() < .5:
        u, e = product()
        if r.random() < .15:
            u = f"({u})"
        t, d = t + r.choice([" / ", "/"]) + u, addv(d, e, -1)
    return t, d


def near(r, d):
    out = []
    for i in range(8):
        for k in (1, -1):
            x = list(d); x[i] += k; out.append(tuple(x))
        if d[i]:
            x = list(d); x[i] = -x[i]; out.append(tuple(x))
            x = list(d); x[i] = 0; out.append(tuple(x))
            j = r.randrange(8)
            if j != i:
                x = list(d); x[i], x[j] = x[j], x[i]; out.append(tuple(x))
    out += [tuple(-x for x in d), (0,) * 8, tuple(2 * x for x in d)]
    return out


def build(chk):
    r = chk.rng
    cases = []

    def add(decl, path, dims, text):
        cands = [x for d in dims for x in near(r, d)]
        cands += [gen.rdim(r) for _ in range(3)]
        cands = sorted(set(cands))
        if not chk.thorough and len(cands) > 26:
            cands = r.sample(cands, 26)
        types = [(d, gen.rscale(r), r.choice(gen.NUMT)) for d in cands]
        for d in dims:      # the dimension itself: every numeric type, several scales
            types += [(d, gen.rscale(r), t) for t in gen.NUMT] + [(d, gen.rscale(r), "f64") for _ in range(3)]
            types.append((d, (0, 0, 0, 0), "f64"))
        body = f"impl<T:?Sized + {path}> W2<T> {{ const V: bool = true; }}\n"
        body = "struct W2<T:?Sized>(PhantomData<T>); trait No2 { const V: bool = false; } impl<T:?Sized> No2 for W2<T> {}\n" + body
        body = decl + "\n" + body
        for i, (d, s, t) in enumerate(types):
            body += f"ev(&[id,\"{i}\",if <W2<{un.qtype(s, d, t)}>>::V {{\"y\"}} else {{\"n\"}}]);\n"
        for i, t in enumerate(("f64", "i32", "()")):
            body += f"ev(&[id,\"bare{i}\",if <W2<{t}>>::V {{\"y\"}} else {{\"n\"}}]);\n"
        # a generic function is callable with each admitted dimension and hands the value through
        body += f"fn pass<X:{path}>(x:X)->X{{x}}\n"
        for k, d in enumerate(dims):
            s = gen.rscale(r)
            body += f"q(id,\"call{k}\",||pass(<{un.qtype(s, d)}>::new(2.5)));\n"
        cases.append(Case(f"c{len(cases)}", body, dict(dims=dims, types=types, text=text)))

    for i, (n, s) in enumerate(ATOM):
        add("", f"dt::{n}", [unit(i)], f"predefined {n}")
    for s, d in list(NAMES.items()) + list(DERIVED.items()):
        add(f"define_generic_dimension!(Dm, {s});", "Dm", [d], s)
        if s in NAMES:
            add(f"define_generic_dimension!(Dm, {s}3);", "Dm", [tuple(3 * x for x in d)], s + "3")
    for _ in range(300 if not chk.thorough else 3000):
        n = r.choice([1, 1, 1, 2, 2, 3])
        es, dims = [], []
        while len(es) < n:
            t, d = expr(r)
            if d in dims or max(map(abs, d)) > 60:
                continue
            es.append(t); dims.append(d)
        add(f"define_generic_dimension!(Dm, {', '.join(es)});", "Dm", dims, ", ".join(es))
    # quantities from the declarators, admitted or not by the same oracle
    sp = [s for s in un.spellings() if un.macro_ok(s.text) and s.u.storage and not s.u.affine and s.u.name != "lumen"]
    for _ in range(30 if not chk.thorough else 200):
        t, d = expr(r)
        if max(map(abs, d)) > 60:
            continue
        us = r.sample(sp, 12) + [x for x in sp if x.u.dim == d][:6]
        body = f"define_generic_dimension!(Dm, {t});\nstruct W2<T:?Sized>(PhantomData<T>); trait No2 {{ const V: bool = false; }} impl<T:?Sized> No2 for W2<T> {{}}\nimpl<T:?Sized + Dm> W2<T> {{ const V: bool = true; }}\n"
        types = []
        for i, u in enumerate(us):
            body += f"ev(&[id,\"{i}\",if <W2<unit!({u.text})>>::V {{\"y\"}} else {{\"n\"}}]);\n"
            types.append((u.u.dim, u.text, "f64"))
        cases.append(Case(f"c{len(cases)}", body, dict(dims=[d], types=types, text=t)))
    return cases


def run(chk):
    chk.rule = ("(dimension definition, quantity type) membership observations: the dimensions themselves with all 14 number types and many scales, "
                "and neighbours differing by one exponent, sign or swap; distinct by definition; non-trivial = the definition admits and excludes candidates")
    chk.assumptions = ["unbranded quantities (the traits say nothing about brands)"]
    cases = build(chk)
    p = Project("W16", prelude=PRE)
    p.spread(cases, 8)
    p.build()
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    yes = no = 0
    for c in cases:
        m = c.meta
        if c.id in p.rejected:
            chk.violate("rejected:" + m["text"], "definition or call does not compile: " + p.rejected[c.id][0][1], c.body); continue
        o = obs.get(c.id, {})
        for i, (d, s, t) in enumerate(m["types"]):
            st = o.get(str(i))
            if st is None:
                chk.violate("lost:" + m["text"], f"{o.get('PANIC')}", c.body); break
            chk.saw()
            want = d in m["dims"]
            yes += want; no += not want
            if (st[0] == "y") != want:
                chk.violate(f"member:{m['text']}:{d}:{s}:{t}", f"`{m['text']}` (dimensions {m['dims']}) {'admits' if not want else 'refuses'} a quantity of dimension {d}, scale {s}, {t}", c.body)
        for k, st in o.items():
            if k.startswith("bare") and st[0] == "y":
                chk.violate(f"bare:{m['text']}:{k}", "a bare type is admitted", c.body)
            if k.startswith("call"):
                q = un.Q(st[1]) if st[0] == "ok" else None
                if not q or q.dim != m["dims"][int(k[4:])] or q.num != 2.5:
                    chk.violate(f"call:{m['text']}", str(st), c.body)
        chk.distinct.add(m["text"])
        if len(chk.samples) < 8 and len(cases) and c.id.endswith("7"):
            chk.samples.append({"definition": m["text"], "dimensions": [list(x) for x in m["dims"]], "candidates": len(m["types"]),
                                "admitted": sum(1 for st in o.values() if st[0] == "y")})
    chk.coverage.update(admitted=yes, excluded=no)
    return chk.finish(min_events=4000)
