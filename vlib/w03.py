"""W03: incoherent programs are refused.
(a) operator/conversion availability is observed at run time for pairs of quantity types that agree or differ in exactly one respect;
(b) whole programs that are incoherent, each with its coherent twin, go through the real compiler."""
import gen, units as un
from common import Project, Case

PRE = r"""
use whippyunits::quantity::*; use whippyunits::{unit,quantity,rescale,value,define_unit_declarators}; use whippyunits::api::*;
use whippyunits::default_declarators::*; use whippyunits::dimension_traits::{self as dt, define_generic_dimension};
use probe::*; use core::marker::PhantomData; use core::ops::*;
#[derive(Clone,Copy,PartialEq,PartialOrd)] pub struct BrA;
#[derive(Clone,Copy,PartialEq,PartialOrd)] pub struct BrB;
define_unit_declarators!(locmm, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(locx, FrameX, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(locy, FrameY, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(brx, BrandX);
pub struct W<X:?Sized,Y:?Sized>(PhantomData<X>,PhantomData<Y>);
macro_rules! probes { ($($n:ident : [$($b:tt)*]),*) => { $( pub mod $n { use super::*;
  pub struct P<X,Y>(PhantomData<X>,PhantomData<Y>);
  pub trait No { const V: bool = false; } impl<X,Y> No for P<X,Y> {}
  impl<X: $($b)*, Y> P<X,Y> { pub const V: bool = true; }
} )* } }
probes!(add:[Add<Y>], sub:[Sub<Y>], rem:[Rem<Y>], add_a:[AddAssign<Y>], sub_a:[SubAssign<Y>], rem_a:[RemAssign<Y>],
  eq:[PartialEq<Y>], ord:[PartialOrd<Y>], mul:[Mul<Y>], div:[Div<Y>], mul_a:[MulAssign<Y>], div_a:[DivAssign<Y>], into:[Into<Y>], deref:[Deref<Target=Y>]);
macro_rules! pair { ($id:expr,$k:expr,$A:ty,$B:ty) => {{ let mut s=String::new();
  macro_rules! one { ($m:ident) => {{ use $m::No as _; s.push(if <$m::P<$A,$B>>::V {'y'} else {'n'}); }} }
  one!(add);one!(sub);one!(rem);one!(add_a);one!(sub_a);one!(rem_a);one!(eq);one!(ord);one!(mul);one!(div);one!(mul_a);one!(div_a);one!(into);one!(deref);
  ev(&[$id,$k,&s]); }} }
"""
OPS = ["add", "sub", "rem", "add_a", "sub_a", "rem_a", "eq", "ord", "mul", "div", "mul_a", "div_a", "into", "deref"]
RAD = {"f32", "f64", "i16", "i32", "i64", "i128", "isize"}
Z8 = (0,) * 8


def erasable(a, t):
    """may a quantity type become number type t"""
    s, d, ty, br = a
    return not any(d[:7]) and br == "()"


def expect(a, b):
    """per OPS: True / False / None (not promised either way)"""
    qa, qb = isinstance(a, tuple), isinstance(b, tuple)
    if qa and qb:
        same = a == b
        tb = a[2:] == b[2:]
        dl = not any(b[1])
        rad = (a[0] == b[0] and a[1][:7] == b[1][:7] and a[1][7] != b[1][7] and b[1][7] == 0 and a[2:] == b[2:] and a[3] == "()" and a[2] in RAD)
        return [same] * 8 + [tb, tb] + [None if dl else False] * 2 + [True if same else None if rad else False, None]
    if qa:                        # quantity op number
        plain = not any(a[1][:7])
        own = a[2] == b
        bad = None if plain else False
        return [bad, bad, True if own else False, bad, bad, True if own else False, bad, bad,
                own, own, own, own, None if erasable(a, b) else False, False if not plain else None]
    plain = not any(b[1][:7])     # number op quantity
    bad = None if plain else False
    own = b[2] == a
    return [bad, bad, bad, bad, bad, bad, bad, bad, own, own, bad, bad, bad, bad]


def mutate(r, a):
    """a type differing from a in exactly one respect, and which"""
    s, d, t, br = a
    c = r.choice(["dim", "dim", "dim", "scale", "scale", "T", "brand"])
    if c == "dim":
        i = r.randrange(8); x = list(d)
        k = r.random()
        if k < .6 or not any(d):
            x[i] += r.choice([1, -1, 2, -2])
        elif k < .8:
            x = [-y for y in x]
        else:
            j = r.randrange(8); x[i], x[j] = x[j], x[i]
            if x == list(d):
                x[i] += 1
        return (s, tuple(x), t, br), c
    if c == "scale":
        i = r.randrange(4); x = list(s)
        if r.random() < .5:
            x[i] += r.choice([1, -1, 3, -3])
        else:
            x[0] += 3; x[2] += 3
        return (tuple(x), d, t, br), c
    if c == "T":
        return (s, d, r.choice([x for x in gen.NUMT if x != t]), br), c
    return (s, d, t, r.choice([x for x in ("()", "BrA", "BrB") if x != br])), c


def pairs(chk, cases):
    r = chk.rng
    n = 60 if not chk.thorough else 600
    for i in range(n):
        body, meta = "", []
        for k in range(14):
            a = (gen.rscale(r), gen.rdim(r), r.choice(gen.NUMT), r.choice(["()", "()", "BrA"]))
            c = r.random()
            if c < .15:
                b, why = a, "same"
            elif c < .85:
                b, why = mutate(r, a)
            elif c < .93:
                b, why = r.choice([a[2], r.choice(gen.NUMT)]), "number"
            else:
                b, why = a, "number"
                a = r.choice([b[2], r.choice(gen.NUMT)])
            rad = isinstance(a, tuple) and isinstance(b, tuple) and why == "dim" and r.random() < .2
            if rad:    # angle part only
                a = (a[0], a[1][:7] + (r.choice([0, 1, -2]),), a[2], "()"); b = (a[0], a[1][:7] + (a[1][7] + r.choice([1, -1, 2]),), a[2], "()")
            if isinstance(a, tuple) and isinstance(b, tuple) and why == "dim" and r.random() < .5:
                a, b = b, a
            T = lambda x: x if isinstance(x, str) else un.qtype(x[0], x[1], x[2], x[3])
            body += f"pair!(id,\"{k}\",{T(a)},{T(b)});\n"
            meta.append((a, b, why))
        cases.append(Case(f"p{i}", body, dict(pairs=meta)))


PROGS = {
    # name: (what must differ, program with @A/@B quantity expressions, @TA/@TB their types)
    "+": ("scale", "let z=@A + @B; let _=z;"), "-": ("scale", "let z=@A - @B; let _=z;"), "%": ("scale", "let z=@A % @B; let _=z;"),
    "+=": ("scale", "let mut z=@A; z+=@B; let _=z;"), "-=": ("scale", "let mut z=@A; z-=@B; let _=z;"), "%=": ("scale", "let mut z=@A; z%=@B; let _=z;"),
    "==": ("scale", "let z=@A == @B; let _=z;"), "!=": ("scale", "let z=@A != @B; let _=z;"), "<": ("scale", "let z=@A < @B; let _=z;"),
    ">=": ("scale", "let z=@A >= @B; let _=z;"), "cmp": ("scale", "let z=@A.partial_cmp(&@B); let _=z;"),
    "assert_eq": ("scale", "assert_eq!(@A==@B, @B==@A);"),
    "let": ("scale", "let z: @TA = @B; let _=z;"), "assign": ("scale", "let mut z=@A; z=@B; let _=z;"),
    "arg": ("scale", "fn f(x:@TA)->@TA{x} let _=f(@B);"), "ret": ("scale", "fn f()->@TA{ @B } let _=f();"),
    "field": ("scale", "struct S{x:@TA} let z=S{x:@B}; let _=z.x;"), "tuple": ("scale", "struct S(@TA); let z=S(@B); let _=z.0;"),
    "array": ("scale", "let z=[@A,@B]; let _=z[0];"), "vec": ("scale", "let mut z=vec![@A]; z.push(@B); let _=z[0];"),
    "branch": ("scale", "let z=if std::env::args().count()>0 {@A} else {@B}; let _=z;"), "match": ("scale", "let z=match std::env::args().count(){0=>@A,_=>@B}; let _=z;"),
    "closure": ("scale", "let f=|x:@TA| x; let _=f(@B);"), "option": ("scale", "let z=Some(@A).unwrap_or(@B); let _=z;"),
    "swap": ("scale", "let mut x=@A; let mut y=@B; std::mem::swap(&mut x,&mut y); let _=(x,y);"), "replace": ("scale", "let mut x=@A; let _=std::mem::replace(&mut x,@B);"),
    "fold": ("scale", "let z=[@A,@A].into_iter().fold(@B,|x,y| x+y); let _=z;"), "ref": ("scale", "fn f(x:&@TA)->@TA{*x} let _=f(&@B);"),
    "generic": ("scale", "fn f<X:Add<Y>,Y>(x:X,y:Y)->X::Output{x+y} let _=f(@A,@B);"), "result": ("scale", "let z:Result<@TA,()>=Ok(@B); let _=z;"),
    "phantom": ("scale", "let z:Vec<@TA>=vec![@B,@B]; let _=z[0];"), "sum": ("scale", "let z=@A * @N + @B * @N; let _=z;"),
    "neg": ("scale", "let z=@A - (@B - @B); let _=z;"), "prod": ("scale", "let z=@A*@A + @B*@B; let _=z;"), "quot": ("scale", "let z=@N/@A + @N/@B; let _=z;"),
    "const": ("scale", "fn f<const K:usize>(x:[@TA;K])->usize{K} let _=f([@B]);"),
    "rescale": ("dim", "let z:@TA = @RS(@B); let _=z;"), "rescale as": ("dim", "let z=@RS(@B) as @TA; let _=z;"), "rescale arg": ("dim", "fn f(x:@TA){} f(@RS(@B));"),
    "rescale add": ("dim", "let z=@A + @RS(@B); let _=z;"),
    "into number": ("solo", "let z:@N1=@A.into(); let _=z;"), "from number": ("solo", "let z=@N1::from(@A); let _=z;"), "as number": ("solo", "let z=@A as @N1; let _=z;"),
    "number arg": ("solo", "fn f(x:@N1){} f(@A.into());"), "bare add": ("solo", "let z=@A + @NB; let _=z;"), "bare cmp": ("solo", "let z=@A < @NB; let _=z;"),
    "bare add left": ("solo", "let z=@NB + @A; let _=z;"), "bare let": ("solo", "let z:@TA=@NB; let _=z;"), "bare eq": ("solo", "let z=@A == @NB; let _=z;"),
    "bare +=": ("solo", "let mut z=@A; z += @NB; let _=z;"), "bare acc": ("solo", "let mut z=@NB; z += @A; let _=z;"), "number let": ("solo", "let z:@N1=@A; let _=z;"),
    "sin": ("solo", "let z=f64::sin(@A.into()); let _=z;"), "index": ("solo", "let z=[1,2,3][@A.into()]; let _=z;"), "number ret": ("solo", "fn f()->@N1{ @A.into() } let _=f();"),
}
# coherent twins of the "solo" programs
SOLO_TWIN = {
    "into number": "let z:@N1=(@A/@A).into(); let _=z;", "from number": "let z=@N1::from(@A/@A); let _=z;", "as number": "let z=@N1::from(@A/@A) as @N1; let _=z;",
    "number arg": "fn f(x:@N1){} f((@A/@A).into());", "bare add": "let z=@A + @A; let _=z;", "bare cmp": "let z=@A < @A; let _=z;",
    "bare add left": "let z=@NB * @A; let _=z;", "bare let": "let z:@TA=@NB*@A; let _=z;", "bare eq": "let z=@A == @A; let _=z;",
    "bare +=": "let mut z=@A; z *= @NB; let _=z;", "bare acc": "let mut z=@NB; z += @N1::from(@A/@A); let _=z;", "number let": "let z:@TA=@A; let _=z;",
    "sin": "let z=f64::sin((@A/@A).into()); let _=z;", "index": "let z=[1,2,3][<usize>::from(quantity!(1,m,usize)/quantity!(1,m,usize))]; let _=z;",
    "number ret": "fn f()->@N1{ (@A/@A).into() } let _=f();",
}
FN = lambda t: "rescale" if t == "f64" else "rescale_" + t


def progs(chk, cases):
    r = chk.rng
    sp = [s for s in un.spellings() if un.macro_ok(s.text) and s.u.storage and not s.u.affine and s.u.name != "lumen"]
    byd = {}
    for s in sp:
        byd.setdefault(s.u.dim, []).append(s)
    many = [d for d in byd if len(byd[d]) > 3]

    def qe(u, t, br, v=None):
        v = v or ("2.0" if t in un.FLOATS else "2")
        if t == "f64" and br == "()" and r.random() < .6:
            e, ty = f"quantity!({v},{u})", f"unit!({u})"
        else:
            tail = t if br == "()" and r.random() < .7 else f"{t},{br}"
            e, ty = f"quantity!({v},{u},{tail})", f"unit!({u},{tail})"
        # the same type again, by a computation whose result has it
        k = r.choice([""] * 8 + ["inv", "inv", "inv2", "mul", "lmul", "div", "quo", "pro", "sum", "rem", "neg", "ratio"])
        n = v + t
        if k == "neg" and t[0] == "u":
            k = "sum"
        e = {"": e, "inv": f"({n}/({n}/{e}))", "inv2": f"({e}*({n}/{e})*{e})", "mul": f"({e}*{n})", "lmul": f"({n}*{e})", "div": f"({e}/{n})", "quo": f"(({e}*{e})/{e})",
             "pro": f"(({e}/{e})*{e})", "sum": f"({e}+{e})", "rem": f"({e}%{e})", "neg": f"(-{e})", "ratio": f"({e}*({e}/{e}))"}[k]
        return e, ty

    def scale_differs(x, y):
        return x.u.dim == y.u.dim and x.value != y.value

    n = [0]

    def emit(name, prog, a, b, why, extra=None):
        """a,b: (expr,type); extra substitutions"""
        sub = dict(extra or {})
        y = sub.pop("@twin", None)

        def fill(p, x, y):
            for k, v in (("@TA", x[1]), ("@TB", y[1]), ("@A", x[0]), ("@B", y[0])):
                p = p.replace(k, v)
            for k, v in sub.items():
                p = p.replace(k, v)
            return p
        i = n[0]; n[0] += 1
        twin = SOLO_TWIN[name] if name in SOLO_TWIN else prog
        cases.append(Case(f"x{i}", fill(prog, a, b) , dict(bad=True, name=name, why=why)))
        cases.append(Case(f"y{i}", fill(twin, a, y or a), dict(bad=False, name=name, why=why)))

    rounds = 3 if not chk.thorough else 25
    for _ in range(rounds):
        for name, (need, prog) in PROGS.items():
            t = r.choice(["f64", "f64", "f64", "f32", "i32", "i64", "u8", "i128"])
            br = r.choice(["()", "()", "()", "BrA"])
            d = r.choice(many)
            x = r.choice(byd[d])
            N = "2.0" if t in un.FLOATS else "2"
            sub = {"@RS": FN(t), "@NB": f"2.0{t}" if t in un.FLOATS else f"2{t}", "@N1": t, "@N": f"{N}{t}"}
            if need == "solo":
                if name == "sin":
                    sub["@N1"] = t = "f64"
                if name in ("into number", "from number", "number arg", "number ret", "sin", "as number", "bare acc"):
                    br = "()"
                while not any(x.u.dim[:7]):
                    x = r.choice(sp)
                a = qe(x.text, t, br)
                emit(name, prog, a, a, "bare", sub)
                continue
            kinds = ["dim", "dim", "T", "brand"] + (["scale", "scale"] if need == "scale" else [])
            why = r.choice(kinds)
            a = qe(x.text, t, br)
            y = x; t2, br2 = t, br
            if why == "dim":
                while y.u.dim == x.u.dim or (name == "%" and not any(y.u.dim)):
                    y = r.choice(sp)
            elif why == "scale":
                y = r.choice([z for z in byd[d] if z.value != x.value])
            elif why == "T":
                t2 = r.choice([z for z in gen.NUMT if z != t])
            else:
                br2 = r.choice([z for z in ("()", "BrA", "BrB") if z != br])
            b = qe(y.text, t2, br2)
            if need == "dim":      # rescaling: the twin really rescales
                sub["@twin"] = qe(r.choice(byd[d]).text, t, br)
                if why in ("T",):
                    pass
            if why == "T" and name in ("sum", "quot"):
                sub["@N"] = f"{N}"
            emit(name, prog, a, b, why, sub)

    # macros
    def two(d1=None):
        x = r.choice(sp)
        y = r.choice(sp)
        while y.u.dim == x.u.dim:
            y = r.choice(sp)
        return x, y, r.choice(byd[x.u.dim])

    def raw(name, bad, good, why):
        i = n[0]; n[0] += 1
        cases.append(Case(f"x{i}", bad, dict(bad=True, name=name, why=why)))
        cases.append(Case(f"y{i}", good, dict(bad=False, name=name, why=why)))

    k = 8 if not chk.thorough else 60
    ALLT = gen.NUMT
    for _ in range(k):
        x, y, z = two(); t = r.choice(ALLT); v = "2.0" if t in un.FLOATS else "2"
        raw("rescale!", f"let z=rescale!(quantity!({v},{x.text},{t}),{y.text},{t});", f"let z=rescale!(quantity!({v},{x.text},{t}),{z.text},{t});", "dim")
        x, y, z = two()
        raw("rescale!", f"let z=rescale!(quantity!(2.0,{x.text}),{y.text});", f"let z=rescale!(quantity!(2.0,{x.text}),{z.text});", "dim")
        t2 = r.choice([q for q in ALLT if q != t])
        raw("rescale!", f"let z=rescale!(quantity!({v},{x.text},{t}),{z.text},{t2});", f"let z=rescale!(quantity!({v},{x.text},{t}),{z.text},{t});", "T")
        raw("value!", f"let z=value!(quantity!({v},{x.text},{t}),{y.text},{t});", f"let z=value!(quantity!({v},{x.text},{t}),{z.text},{t});", "dim")
        x, y, z = two()
        raw("value!", f"let z=value!(quantity!(2.0,{x.text}),{y.text});", f"let z=value!(quantity!(2.0,{x.text}),{z.text});", "dim")
        raw("value!", f"let z=value!(quantity!({v},{x.text},{t}),{z.text},{t2});", f"let z=value!(quantity!({v},{x.text},{t}),{z.text},{t});", "T")
        raw("value!", f"let z=value!(quantity!(2.0,{x.text},f64,BrA),{z.text},f64,BrB);", f"let z=value!(quantity!(2.0,{x.text},f64,BrA),{z.text},f64,BrA);", "brand")
        raw("rescale brand", f"let z:unit!({z.text},f64,BrB)=rescale(quantity!(2.0,{x.text},f64,BrA));", f"let z:unit!({z.text},f64,BrA)=rescale(quantity!(2.0,{x.text},f64,BrA));", "brand")
        raw("rescale unbrand", f"let z:unit!({z.text})=rescale(quantity!(2.0,{x.text},f64,BrA));", f"let z:unit!({z.text},f64,BrA)=rescale(quantity!(2.0,{x.text},f64,BrA));", "brand")
        raw("local declarators", f"use locmm as l; let z=l::quantity!(2.0,{x.text}) + l::quantity!(2.0,{y.text});", f"use locmm as l; let z=l::quantity!(2.0,{x.text}) + l::quantity!(2.0,{z.text});", "dim")
        raw("local brands", f"let z=locx::quantity!(2.0,{x.text}) + locy::quantity!(2.0,{z.text});", f"let z=locx::quantity!(2.0,{x.text}) + locx::quantity!(2.0,{z.text});", "brand")
        raw("local brand vs none", f"let z=locx::quantity!(2.0,{x.text}) - locmm::quantity!(2.0,{z.text});", f"let z=locmm::quantity!(2.0,{x.text}) - locmm::quantity!(2.0,{z.text});", "brand")
        raw("brand-only vs default", f"let z=brx::quantity!(2.0,{x.text}) + quantity!(2.0,{x.text});", f"let z=brx::quantity!(2.0,{x.text}) + brx::quantity!(2.0,{x.text});", "brand")
        raw("brand cmp", f"let z=locx::quantity!(2.0,{x.text}) < locy::quantity!(2.0,{z.text});", f"let z=locx::quantity!(2.0,{x.text}) < locx::quantity!(2.0,{z.text});", "brand")
        raw("brand mul", f"let z=locx::quantity!(2.0,{x.text}) * locy::quantity!(2.0,{y.text});", f"let z=locx::quantity!(2.0,{x.text}) * locx::quantity!(2.0,{y.text});", "brand")
        raw("brand assign", f"let mut z=locx::quantity!(2.0,{x.text}); z=locy::quantity!(2.0,{z.text});", f"let mut z=locx::quantity!(2.0,{x.text}); z=locx::quantity!(2.0,{z.text});", "brand")
        # generic dimensions
        d = r.choice([q for q in byd if any(q)])
        ex = " * ".join(f"{s}^{e}" for s, e in zip(["M", "L", "T", "I", "Temperature", "N", "Luminosity", "A"], d) if e)
        g = r.choice(byd[d])
        o = r.choice([q for q in sp if q.u.dim != d])
        raw("generic dimension", f"define_generic_dimension!(Dm,{ex}); fn f<X:Dm>(x:X){{}} f(quantity!(2.0,{o.text}));", f"define_generic_dimension!(Dm,{ex}); fn f<X:Dm>(x:X){{}} f(quantity!(2.0,{g.text}));", "dim")
        a, b = r.sample(["Mass:g", "Length:m", "Time:s", "Current:A", "Temperature:K", "Amount:mol", "Luminosity:cd", "Angle:rad"], 2)
        raw("atomic dimension", f"fn f(x:impl dt::{a.split(':')[0]}){{}} f(quantity!(2.0,{b.split(':')[1]}));", f"fn f(x:impl dt::{a.split(':')[0]}){{}} f(quantity!(2.0,{a.split(':')[1]}));", "dim")
    METH = [("meters", "m"), ("seconds", "s"), ("grams", "g"), ("kilograms", "kg"), ("amperes", "A"), ("kelvin", "K"), ("moles", "mol"), ("radians", "rad"), ("degrees", "deg"),
            ("millimeters", "mm"), ("hours", "h"), ("joules", "J"), ("newtons", "N"), ("hertz", "Hz"), ("pascals", "Pa"), ("feet", "ft"), ("pounds", "lb")]
    val = {m: un.BY_SYMBOL.get(s) for m, s in METH}
    for _ in range(k):
        a, b = r.sample(METH, 2)
        op = r.choice(["+", "-", "%", "<", "==", ">="])
        N = r.choice(["2.0", "2"])
        raw("methods", f"let z={N}.{a[0]}() {op} {N}.{b[0]}();", f"let z={N}.{a[0]}() {op} 3{N[1:]}.{a[0]}();", "dim")
        raw("method types", f"let z=2.0.{a[0]}() {op} 2.{a[0]}();", f"let z=2.0.{a[0]}() {op} 2.0.{a[0]}();", "T")
        raw("literals", f"#[culit::culit(whippyunits::default_declarators::literals)] fn f() {{ let z=2.0{a[1]} + 2.0{b[1]}; }} f();", f"#[culit::culit(whippyunits::default_declarators::literals)] fn f() {{ let z=2.0{a[1]} + 2.0{a[1]}; }} f();", "dim")
        raw("local methods", f"use locmm::*; let z=2.0.{a[0] if a[0] not in ('joules','newtons','hertz','pascals','feet','pounds','hours','degrees') else 'meters'}() + 2.0.moles()+2.0.amperes();",
            "use locmm::*; let z=2.0.moles() + 3.0.moles();", "dim") if False else None


def run(chk):
    chk.rule = ("(a) ordered pairs of types x 14 operator/conversion bounds, each pair agreeing or differing in exactly one of dimension, scale, storage type, brand, or a bare number; "
                "(b) incoherent programs with coherent twins; distinct by pair / program text; non-trivial = the pair differs or the program is incoherent")
    chk.assumptions = ["dimensionless and angle quantities against bare numbers are left open (they may erase)",
                       "rejection is observed as a compiler error inside that program's own lines, its twin (same form, coherent operands) being accepted"]
    cases = []
    pairs(chk, cases)
    progs(chk, cases)
    p = Project("W03", prelude=PRE.strip().replace("\n", " ") if False else PRE, deps='culit = "0.6"\n')
    p.spread(cases, 8)
    p.build(max_rounds=8)
    obs = {}
    for e in p.run():
        obs.setdefault(e[0], {})[e[1]] = e[2:]
    allowed = refused = 0
    codes = {}
    for c in cases:
        m = c.meta
        if "pairs" in m:
            if c.id in p.rejected:
                chk.violate("lost:" + c.id, "type-level probe does not compile: " + p.rejected[c.id][0][1], c.body); continue
            o = obs.get(c.id, {})
            for k, (a, b, why) in enumerate(m["pairs"]):
                st = o.get(str(k))
                if st is None:
                    chk.violate("lost:" + c.id, "no observation", c.body); break
                chk.distinct.add(f"{a}|{b}")
                for op, got, want in zip(OPS, st[0], expect(a, b)):
                    chk.saw()
                    allowed += got == "y"; refused += got == "n"
                    if want is not None and (got == "y") != want:
                        chk.violate(f"pair:{op}:{why}:{a}:{b}", f"`{op}` between {a} and {b} (differ: {why}) is {'available' if got == 'y' else 'refused'}", c.body)
            continue
        chk.saw()
        chk.count(("bad_" if m["bad"] else "twin_") + m["why"])
        if m["bad"]:
            chk.distinct.add(c.body)
            if c.id not in p.rejected:
                chk.violate(f"accepted:{m['name']}:{m['why']}:{c.body}", f"incoherent program compiles ({m['name']}, {m['why']}): {c.body}", c.body)
            else:
                for code in {x[0] for x in p.rejected[c.id]}:
                    codes[str(code)] = codes.get(str(code), 0) + 1
                if len(chk.samples) < 8 and c.id.endswith("5"):
                    chk.samples.append({"program": c.body, "differs": m["why"], "error": list(p.rejected[c.id][0][:2])})
        elif c.id in p.rejected:
            chk.violate(f"twin:{m['name']}:{m['why']}:{c.body}", f"coherent program refused: {c.body}: {p.rejected[c.id][0][:2]}", c.body)
    chk.coverage.update(bounds_available=allowed, bounds_refused=refused, error_codes=codes)
    return chk.finish(min_events=8000)
