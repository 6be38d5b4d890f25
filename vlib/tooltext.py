"""Quantity types as compiler, hover and hint text spells them, and a judge of what a tool shows instead.

A text is a list of segments: ("p", text) plain, ("q", text, Q) a complete quantity type, ("b", text) something that
starts like one but is not a complete, determined quantity type (elided or truncated arguments, parameters, other types)."""
import copy
import re
from fractions import Fraction as F
import gen, units as un, printed, expr as ex

SN = ["_2", "_3", "_5", "_Pi"]
DN = ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"]
STORE = ["f64"] * 8 + ["f32", "i32", "u8", "i64", "u64", "i128", "isize", "Ratio<i64>", "num_complex::Complex<f64>", "Wrap<Pair<u8, i16>>", "T", "[f64; 3]", "(f64, f64)",
                         "_T", "Foo_L<3>", "Scale_", "DimensionOf<u8>"]
BRANDS = ["()"] * 10 + ["Body", "geo::World", "Frame<Left>", "XDimension", "MyScale<3>", "Local_A<World>", "Mark_M<2>", "Fr_2<7>", "In_T<9>", "Dimension", "Größe", "Рамка"]


class Q:
    """what a spelled type is: exponents (None = `_`), storage type, brand"""
    __slots__ = ("dim", "scale", "t", "brand")

    def __init__(self, dim, scale, t, brand):
        self.dim, self.scale, self.t, self.brand = dim, scale, t, brand

    @property
    def open(self):
        return None in self.dim or None in self.scale


def args(names, exps, style, r):
    out = []
    for n, e in zip(names, exps):
        if e is None:
            out.append(f"{n}<_>")
        elif e == 0 and (style == "short" or style == "mixed" and r.random() < .5):
            out.append(n)
        else:
            out.append(f"{n}<{e}>")
    if style == "short" or style == "mixed" and r.random() < .6:
        while out and out[-1] in names:
            out.pop()
    return out


def spell(q, r, style=None):
    style = style or r.choice(["short", "short", "short", "full", "mixed"])
    s, d = args(SN, q.scale, style, r), args(DN, q.dim, style, r)
    a = ["Scale" + (f"<{', '.join(s)}>" if s else ""), "Dimension" + (f"<{', '.join(d)}>" if d else "")]
    if q.t != "f64" or q.brand != "()" or style == "full" or style == "mixed" and r.random() < .5:
        a.append(q.t)
        if q.brand != "()" or r.random() < .04:
            a.append(q.brand)
    return f"Quantity<{', '.join(a)}>"


def rq(r, pool, plain=False):
    d, s = r.choice(pool)
    if plain:
        return Q(d, s, r.choice(STORE[:12]), "()")
    if r.random() < .08:
        d = tuple(None if r.random() < .4 else x for x in d); s = tuple(None if r.random() < .5 else x for x in s)
        if r.random() < .4:
            d, s = (None,) * 8, (None,) * 4
    return Q(d, s, r.choice(STORE), r.choice(BRANDS))


def pool(r, n=900):
    import w15
    return [(d, s) for d, s in w15.units_pool(r, n) if abs(ex.log10(un.scale_value(s))) < 60]


def bad(r):
    """balanced text that starts like a quantity type but determines no unit"""
    q = r.choice([
        "Quantity<Scale<_2<-3>, _3, _5<-3>>, ...>", "Quantity<Scale, Dimension<…>>", "Quantity<Scale<…>, Dimension<…>>", "Quantity<Scale, …>",
        "Quantity<Scale<..., ..., ...>, ...>", "Quantity<Scale, Dimension<_M, ...>>", "Quantity<Scale<_2<…>>, Dimension<_M, _L<1>>>",
        "Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<K>, _N<N>, _J<J>, _A<A>>, T, Brand>",
        "Quantity<Scale<_2<{ P2_1 + P2_2 }>>, Dimension<_M, _L<{ L1 + L2 }>>, T>", "Quantity<Scale, Dimension<_M, _L<EXP>>>", "Quantity<Scale, D>",
        "Quantity<Scale, _>", "Quantity<Scale<_2<3>, _, _5<3>>, _>", "Quantity<Scale<_2<3>>, Dimension<_, _L<1>, _>>", "Quantity<ScaleMode, Fit>", "Quantity<Scale>",
        "Quantity<ScaleFactor<u8>, Dimension>", "Quantity<Scaled, f64>", "Quantity<Scale, Dimension<_M, _L<99999>>>", "Quantity<Scale<_2<x>>, Dimension<_M, _L<1>>>",
        "Quantity<Scale<>, Dim<3>>", "Quantity<Scale, Dimensional<_M<1>>>", "Quantity<Scale, Dimension<_M<->>>", "Quantity<Scale, Dimension<_L<+ 1>, 3>>", "Quantity<Scale<3>, Dimension<4>>",
        "Quantity<Scale, [Dimension; 2]>",
    ])
    return q


PLAIN = ["", " ", "  ", "\t", "expected `", "`, found `", "`", "let x: ", " = 5.0;", "Vec<", ">", ">>", "Option<", "(", ", ", ")", "&", "-> ", " => ", "fn f(a: ", "error[E0308]: mismatched types",
         "  --> src/main.rs:5:9", "  |", "5 |     ", "^^^^ ", "= note: ", "Quantity", "Quantity<T>", "Quantity<u32, u8>", "Scale", "Dimension<", "Dimension", "_Θ<5>", "_L<1>", "where ", "---",
         "µ", "é", "日本語", "🚀", "e\u0301", "\u200b", "“quoted”", "ſ", "\u00a0", "x < y", "a > b", "std::iter::Map<", "quantity!(1.0, m)", "unit!(m/s)", "{integer}", "`()`", "T = u8", "\\n", "\"", "'a",
         "Größe: ", "значение: ", ": ", "::", "%s {} {{", "struct ", "  size = 8, align = 8", "¹²", "⁻¹", "m¹", "https://example.org/?q=1&r=2#x", "PLACEHOLDER_MINUS_ONE"]
LINE_ONLY = []


def text(r, pool, nl=False, p_bad=.12, p_open=.03, types=None, plain_q=False):
    """random list of segments"""
    segs = []
    n = types if types is not None else r.choice([0, 1, 1, 1, 2, 2, 3, 4])
    for i in range(n + 1):
        t = "".join(r.choice(PLAIN) + (r.choice(["\n", "\r\n", "\n\n"]) if nl and r.random() < .2 else "") for _ in range(r.choice([0, 1, 1, 2, 3, 6])))
        segs.append(("p", t))
        if i < n:
            if r.random() < p_bad:
                segs.append(("b", bad(r)))
            else:
                q = rq(r, pool, plain_q)
                segs.append(("q", spell(q, r), q))
    if p_open and r.random() < p_open:
        q = spell(rq(r, pool), r, "full")
        segs.append(("u", q[:r.randint(15, len(q) - 1)]))
    return segs


def raw(segs):
    return "".join(s[1] for s in segs)


def balanced(t, i):
    """end of the angle-bracketed text whose '<' is at i"""
    depth = 0
    for j in range(i, len(t)):
        if t[j] == "<":
            depth += 1
        elif t[j] == ">":
            depth -= 1
            if depth == 0:
                return j + 1
    return None


def ns(s):
    return re.sub(r"\s+", "", s)


def unascii(t, verbose):
    """the same notation with the symbols that ASCII mode spells out"""
    t = re.sub(r"\^(-?\d+)", lambda m: "".join("⁻" if c == "-" else "⁰¹²³⁴⁵⁶⁷⁸⁹"[int(c)] for c in m.group(1)), t).replace("*", "·")
    if verbose:
        return re.sub(r"\[[^\]]*\]", lambda m: re.sub(r"\bpi(?![a-z])", "π", m.group(0)), t)
    return re.sub("[Oo]hms?", "Ω", t)


def with_storage(q, t):
    c = copy.copy(q)
    c.t = t
    return c


def judge(shown, q, verbose=False, unicode=True):
    """is `shown` (Quantity<...>) exactly this type?  None or what is wrong with it"""
    inner = shown[len("Quantity<"):-1]
    tail = ", " + q.t + (", " + q.brand if q.brand != "()" else "")
    # the unit never contains ", " followed by the storage type except in verbose brackets, so match the tail ignoring blanks
    k = None
    for m in re.finditer(", ", inner):
        if ns(inner[m.start():]) == ns(tail):
            k = m.start(); break
    if k is None:
        return f"storage type and brand are {tail[2:]!r}"
    u = inner[:k]
    if not unicode:
        if not u.isascii():
            return "not ASCII although Unicode is disabled"
        u = unascii(u, verbose)
    if q.open:
        return None if "?" in u or "ˀ" in u else "an undetermined type is shown as a definite unit"
    if q.dim == (0,) * 8 and q.scale == (0,) * 4 and u == "1":
        return None
    if verbose:
        m = re.fullmatch(r"(.*?)( \((?P<n>[A-Z][A-Za-z ]*|dimensionless)\))?( \[(?P<s>[^\]a-z]*)\])?( \[(?P<d>[^\]]*)\])?", u)
        n = m and m.group("n")
        if n and printed.DIMNAME.get(n) != q.dim:
            return f"calls the dimension {n}"
        u = m.group(1)
        if (printed.brackets(m.group("s") or "", printed.SCALE_N) != q.scale or printed.brackets(m.group("d") or "", printed.DIM_N) != q.dim):
            return "bracketed exponents differ"
    x = printed.read(u, verbose)
    if x is None:
        return "names no unit"
    v = un.scale_value(q.scale)
    if x[0] != q.dim:
        return f"unit has dimension {x[0]}, not {q.dim}"
    if x[2] == 0 and x[1] != v or abs(x[1] - v) > x[2] * v:
        return f"unit is {float(x[1])}, not {float(v)}"
    return None


def follow(out, segs, verbose=False, unicode=True, must=True, stats=None):
    """check that out is the text with its quantity types shown; returns (None | complaint)"""
    i = 0
    for s in segs:
        if s[0] == "p" or s[0] == "u":
            if not out.startswith(s[1], i):
                return f"text {s[1]!r} has become {out[i:i + len(s[1]) + 12]!r}"
            i += len(s[1])
            continue
        if s[0] == "b":
            if out.startswith(s[1], i):
                i += len(s[1]); continue
            if not out.startswith("Quantity<", i):
                return f"{s[1]!r} has become {out[i:i + 40]!r}"
            e = balanced(out, i + 8)
            shown = out[i:e] if e else out[i:i + 60]
            if not e or not ("?" in shown or "ˀ" in shown):
                return f"{s[1]!r}, which determines no unit, is shown as {shown!r}"
            i = e
            continue
        if out.startswith(s[1], i) and (not must or s[2].open):
            i += len(s[1]); continue
        e = balanced(out, i + 8) if out.startswith("Quantity<", i) else None
        if e is None:
            return f"{s[1]!r} has become {out[i:i + 60]!r}"
        shown = out[i:e]
        if shown == s[1]:
            return f"{s[1]!r} is left raw"
        w = judge(shown, s[2], verbose, unicode)
        if w:
            return f"{s[1]!r} is shown as {shown!r}: {w}"
        if stats is not None:
            stats["types_shown"] = stats.get("types_shown", 0) + 1
        i = e
    if i != len(out):
        return f"unexpected text at the end: {out[i:i + 80]!r}"
    return None
