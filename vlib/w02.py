"""W02: the unit type of every product / quotient / sum ... is observed through the type system
(const-generic reflection on the value the expression produced) and compared with exponent algebra."""
import common, gen, units as un
from common import Project, Case

PRE = "use whippyunits::quantity::*; use probe::*; struct BrA; struct BrB;\nimpl Clone for BrA{fn clone(&self)->Self{BrA}} impl Clone for BrB{fn clone(&self)->Self{BrB}} impl PartialEq for BrA{fn eq(&self,_:&Self)->bool{true}} impl PartialOrd for BrA{fn partial_cmp(&self,_:&Self)->Option<std::cmp::Ordering>{None}}"
LIM = 200


def build(chk):
    r = chk.rng
    cases = []
    k = 0

    def pairs(op):
        """stream of (a,b) covering every k in [-200,200] as left, as right and as result"""
        ks = list(range(-LIM, LIM + 1))
        out = []
        for x in ks:                    # as left
            out.append((x, r.randint(-LIM, LIM)))
        for x in ks:                    # as right
            out.append((r.randint(-LIM, LIM), x))
        for x in range(-2 * LIM, 2 * LIM + 1):     # every reachable result
            lo = max(-LIM, x - LIM); hi = min(LIM, x + LIM)
            a = r.randint(lo, hi)
            out.append((a, x - a if op == "*" else a - x))
        for _ in range(400 if not chk.thorough else 6000):
            out.append((r.randint(-12, 12), r.randint(-12, 12)))
        out = [(a, b) for a, b in out if abs(a) <= LIM and abs(b) <= LIM]
        r.shuffle(out)
        while len(out) % 12:
            out.append((r.randint(-9, 9), r.randint(-9, 9)))
        return out

    def brand():
        return r.choice(["()", "()", "BrA", "BrB"])
    for op in "*/":
        st = pairs(op)
        for i in range(0, len(st), 12):
            g = st[i:i + 12]
            a = [p[0] for p in g]; b = [p[1] for p in g]
            t = r.choice(gen.NUMT); br = brand()
            ta, tb = un.qtype(a[:4], a[4:], t, br), un.qtype(b[:4], b[4:], t, br)
            exp = [x + y if op == "*" else x - y for x, y in zip(a, b)]
            x, y = (6, 3)
            one = f"{x} as {t}", f"{y} as {t}"
            cid = f"c{k}"; k += 1
            cases.append(Case(cid, f"q(id,\"r\",||<{ta}>::new({one[0]}){op}<{tb}>::new({one[1]}));",
                              {"op": "Q" + op + "Q", "a": a, "b": b, "t": t, "br": br, "exp": exp,
                               "val": x * y if op == "*" else x // y}))
    # inversion: bare / quantity, every k
    ks = list(range(-LIM, LIM + 1)); r.shuffle(ks)
    while len(ks) % 12:
        ks.append(r.randint(-9, 9))
    for i in range(0, len(ks), 12):
        a = ks[i:i + 12]; t = r.choice(gen.NUMT); br = brand()
        cid = f"c{k}"; k += 1
        cases.append(Case(cid, f"q(id,\"r\",||(6 as {t})/<{un.qtype(a[:4], a[4:], t, br)}>::new(3 as {t}));",
                          {"op": "T/Q", "a": a, "t": t, "br": br, "exp": [-x for x in a], "val": 2}))
    # every (op, storage type, brand): unit/brand/storage preserved, incl. unit-preserving ops
    for t in gen.NUMT:
        for br in ("()", "BrA"):
            a = list(gen.rscale(r, 20)) + list(gen.rdim(r)); b = list(gen.rscale(r, 20)) + list(gen.rdim(r))
            ta, tb = un.qtype(a[:4], a[4:], t, br), un.qtype(b[:4], b[4:], t, br)
            A = f"<{ta}>::new(6 as {t})"; A2 = f"<{ta}>::new(4 as {t})"; B = f"<{tb}>::new(3 as {t})"; n = f"(3 as {t})"
            forms = [("Q*Q", f"{A}*{B}", [x + y for x, y in zip(a, b)], 18),
                     ("Q/Q", f"{A}/{B}", [x - y for x, y in zip(a, b)], 2),
                     ("Q+Q", f"{A}+{A2}", a, 10), ("Q-Q", f"{A}-{A2}", a, 2), ("Q%Q", f"{A}%{A2}", a, 2),
                     ("Q*T", f"{A}*{n}", a, 18), ("Q/T", f"{A}/{n}", a, 2), ("Q%T", f"<{ta}>::new(8 as {t})%{n}", a, 2),
                     ("T*Q", f"{n}*{A}", a, 18), ("T/Q", f"(6 as {t})/{B}", [-x for x in b], 2)]
            if t in gen.SIGNED:
                forms.append(("-Q", f"-{A}", a, -6))
            for nm, ex, e, val in forms:
                cid = f"c{k}"; k += 1
                cases.append(Case(cid, f"q(id,\"r\",||{ex});", {"op": nm, "a": a, "b": b, "t": t, "br": br, "exp": e, "val": val}))
            for nm, st, val in [("+=", f"x+={A2}", 10), ("-=", f"x-={A2}", 2), ("%=", f"x%={A2}", 2),
                                ("*=", f"x*={n}", 18), ("/=", f"x/={n}", 2), ("%=T", f"x%=(4 as {t})", 2)]:
                cid = f"c{k}"; k += 1
                cases.append(Case(cid, f"q(id,\"r\",||{{let mut x={A};{st};x}});",
                                  {"op": nm, "a": a, "t": t, "br": br, "exp": a, "val": val}))
    # chains: (a*b)/b is a;  1/(1/a) is a;  a*b = b*a;  long products associate
    for _ in range(40 if not chk.thorough else 250):
        t = r.choice(gen.NUMT); br = brand()
        n = r.randint(3, 6)
        us = [[r.randint(-30, 30) for _ in range(12)] for _ in range(n)]
        ops = [r.choice("*/") for _ in range(n - 1)]
        acc = us[0][:]; expr = f"<{un.qtype(us[0][:4], us[0][4:], t, br)}>::new(1 as {t})"
        for u, o in zip(us[1:], ops):
            acc = [x + y if o == "*" else x - y for x, y in zip(acc, u)]
            expr = f"({expr}){o}<{un.qtype(u[:4], u[4:], t, br)}>::new(1 as {t})"
        cid = f"c{k}"; k += 1
        cases.append(Case(cid, f"q(id,\"r\",||{expr});", {"op": "chain" + "".join(ops), "a": us, "t": t, "br": br, "exp": acc, "val": 1}))
    return cases


def run(chk):
    chk.rule = ("expressions over generated quantity types; every exponent -200..200 is placed as left operand, right operand "
                "and (up to +-400) as result of Add, Sub and Neg in some one of 12 exponent slots, plus every operator x storage type x brand; "
                "a case is distinct by (operator, operand exponents, storage type, brand)")
    chk.assumptions = ["the type parameters of Quantity are public and are what a unit is", "stable (polyfill) back end; the cge back end is covered by W17"]
    cases = build(chk)
    p = Project("W02", prelude=PRE)
    p.spread(cases, 8)
    p.build()
    ev = {e[0]: e for e in p.run()}
    pairs = {"*": set(), "/": set(), "n": set()}
    for c in cases:
        m = c.meta
        sig = f"{m['op']} {m['t']} {m['br']} a={m['a']} b={m.get('b')}"
        if c.id in p.rejected:
            chk.violate("rejected:" + sig, "coherent expression does not compile: " + p.rejected[c.id][0][1], c.body)
            continue
        e = ev.get(c.id)
        if e is None:
            chk.violate("lost:" + sig, f"no result observed ({p.crashed})", c.body); continue
        if e[2] != "ok":
            chk.violate("panic:" + sig, e[3], c.body); continue
        q = un.Q(e[3])
        got = list(q.scale) + list(q.dim)
        if got != list(m["exp"]):
            chk.violate("unit:" + sig, f"result unit {got}, algebra says {m['exp']}", c.body)
        if q.t != m["t"]:
            chk.violate("storage:" + sig, f"storage type {q.t}", c.body)
        if q.brand != m["br"]:
            chk.violate("brand:" + sig, f"brand {q.brand}", c.body)
        if q.num != m["val"]:
            chk.violate("value:" + sig, f"value {q.num} expected {m['val']}", c.body)
        chk.saw(sig, sample={"op": m["op"], "type": m["t"], "brand": m["br"], "a": m["a"], "b": m.get("b"), "observed": e[3]} if len(chk.samples) < 6 else None)
        if m["op"] in ("Q*Q", "Q/Q"):
            pairs[m["op"][1]].update(zip(m["a"], m["b"]))
        elif m["op"] == "T/Q":
            pairs["n"].update(m.get("b") or m["a"])
    chk.coverage["exponent_pairs_mul"] = len(pairs["*"])
    chk.coverage["exponent_pairs_div"] = len(pairs["/"])
    chk.coverage["exponents_inverted"] = len(pairs["n"])
    return chk.finish(min_events=400)
