"""W24: what the macros do with the caller's expressions and names.

Three comparisons, all by observation of the running program:
  shapes    MACRO(ARG) against `let x: N = ARG; MACRO(x)`: same type and bits, every part of ARG
            evaluated exactly once, and `?`, return, break act on the caller;
  scopes    the same calls in a module full of the caller's own names (types, aliases, variants, modules,
            constants, macros named like units or like the library's items) against a clean module;
  wrappers  the same calls made through the caller's own macro_rules macros.
The program depends on whippyunits alone and denies the compiler's default lints."""
import common, units as un
from common import Project, Case

PRE = "use probe::*;"

# (text of the unit in a call, dimension key)
UNITS = {"L": ["m", "km", "ft", "mile", "m^2/m", "inch"], "H": ["K", "degC", "degF", "mK"], "T": ["s", "min", "ms", "h"],
         "A": ["rad", "deg", "rot"], "V": ["m/s", "km/h", "ft/s", "m.s^-1"], "F": ["N", "kg.m/s2", "kN", "lb*ft/s^2"],
         "E": ["J", "cal", "kWh", "N*m"], "Z": ["1/s", "Hz"], "M": ["kg", "g", "lb", "mg"]}
LOCALS = ["value", "raw_value", "storage_value", "scaled_value", "converted_value", "declared_quantity", "unit_str", "result",
          "e", "q", "rescaled", "quantity", "unit", "json", "string", "input", "self_", "v", "r", "n_", "val", "x", "tmp", "target"]
ITEMS = ["TargetQuantity", "UNIT_INFO", "DIMENSIONS", "SCALES", "Scale", "Dimension", "Quantity", "Result2", "Brand", "T", "V", "Unit",
         "Helper", "SerializationError", "Mass", "Length", "Meter", "Local"]


def num_shapes(t):
    """expressions over tick!(v) - a block that counts and yields v: (name, text, base)"""
    f = t in un.FLOATS
    lit = lambda v: f"({v}.0 as {t})" if f else f"({v} as {t})"
    K = lambda v: f"tick(&n, {lit(v)})"
    sh = [
        ("call", K(7)), ("block", "{ n.set(n.get()+1); %s }" % lit(7)), ("sum", f"{K(7)} + {lit(5)}"), ("product", f"{K(7)} * {lit(3)} + {lit(1)}"),
        ("difference", f"{lit(100)} - {K(7)}"), ("quotient", f"{K(60)} / {lit(4)}"), ("remainder", f"{K(65)} % {lit(7)}"),
        ("if", "if n.get() == 0 { %s } else { %s }" % (K(7), lit(9))), ("match", "match n.get() { 0 => %s, _ => %s }" % (K(7), lit(9))),
        ("closure", f"(|| {K(11)})()"), ("loop", "loop { break %s }" % K(13)), ("labelled", "'a: { if n.get() == 0 { break 'a %s } %s }" % (K(14), lit(1))),
        ("index", f"[{lit(3)}, {lit(4)}][{{ n.set(n.get()+1); 1usize }}]"), ("deref", f"*&{K(15)}"), ("field", f"({K(16)}, 0).0"), ("cast", f"{K(17)} as f64 as {t}"),
        ("unsafe", "unsafe { %s }" % K(18)), ("inner_let", "{ let y = %s; y + y }" % K(19)), ("inner_const", "{ const C: %s = 20 as %s; n.set(n.get()+1); C }" % (t, t)),
        ("inner_fn", "{ fn g() -> %s { 21 as %s } n.set(n.get()+1); g() }" % (t, t)), ("generic_call", f"core::convert::identity::<{t}>({K(22)})"),
        ("method", f"Some({K(23)}).unwrap()"), ("map", f"Some({K(24)}).map(|value| value + {lit(1)}).unwrap_or({lit(2)})"), ("if_let", "if let Some(value) = Some(%s) { value } else { %s }" % (K(25), lit(3))),
        ("nested", "{ let a = %s; { let b = a; b } }" % K(26)), ("paren", f"(({K(27)}))"), ("struct_literal", "Held { x: %s }.x" % K(29)), ("struct_literal_call", "Held { x: %s }.get()" % K(30)), ("comparison", "(%s < %s) as u8 as %s" % (K(31), lit(2), t)),
        ("range", "(0..{ n.set(n.get()+1); 3 }).count() as %s" % t), ("let_else", "{ let Some(y) = Some(%s) else { panic!() }; y }" % K(32)), ("async_like", "{ let f = move |a| a; f(%s) }" % K(33)), ("attribute", "{ #[allow(unused)] let y = %s; y }" % K(34)),
        ("turbofish", "Some(%s).into_iter().collect::<Vec<%s>>()[0]" % (K(35), t)), ("path", "<%s as Clone>::clone(&%s)" % (t, K(36))), ("macro", "vec![%s][0]" % K(28)),
    ]
    if t[0] in "fi":
        sh += [("negation", f"-{K(7)}"), ("negated_sum", f"-({K(7)} + {lit(1)})"), ("double_negation", f"- -{K(8)}"), ("minus_chain", f"{lit(1)} - {K(7)} - {lit(2)}")]
    if not f:
        sh += [("shift", f"{K(3)} << 2"), ("bits", f"{K(6)} | {lit(1)} & {lit(3)}"), ("xor", f"{K(6)} ^ {lit(1)}"), ("not", f"!{K(6)} & {lit(63)}")]
    else:
        sh += [("float_method", f"{K(2)}.max({lit(1)}).sqrt()"), ("mul_add", f"{K(2)}.mul_add({lit(3)}, {lit(1)})")]
    return sh


FLOW = [  # (name, expression with @ for the value; runs in a closure of the caller that logs)
    ("question_some", "opt(&n, true, @)?", "Some"), ("question_none", "opt(&n, false, @)?", "Some"),
    ("return", "{ n.set(n.get()+1); if n.get() < 9 { return None } @ }", "Some"),
    ("continue", "{ n.set(n.get()+1); if n.get() < 3 { continue } @ }", "loop"),
    ("break", "{ n.set(n.get()+1); if n.get() > 2 { break } @ }", "loop"),
    ("labelled_break", "{ n.set(n.get()+1); if n.get() == 2 { break 'outer } @ }", "loop"),
]


def run(chk):
    chk.rule = ("a macro (quantity!, value!, rescale!, from_string!, from_json!, a local scale's quantity!) x unit x storage type x argument shape, or the call made in a hostile scope or through a caller's "
                "macro; distinct by call text; non-trivial = the argument counts, diverges, is an operator expression, or the scope holds a colliding name")
    chk.assumptions = ["a caller that renames whippyunits, core, std or a primitive type is outside the property, and so is a trait of the caller's with a unit's method on the same number type (ambiguous, refused by the compiler)",
                       "constants and unit structures in lower case named like a macro's own variables are patterns to Rust: not judged"]
    r = chk.rng
    big = 4 if chk.thorough else 1
    cases = []
    NT = ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]

    def lit(t, v):
        return f"{v}.5{t}" if t in un.FLOATS else f"{v}{t}"

    def macros(want=None, wt=None):
        """(name, template with @ for the argument, argument type, observer, base expression builder)"""
        fam = r.choice(sorted(UNITS))
        u, w = r.choice(UNITS[fam]), r.choice(UNITS[fam])
        t = wt or r.choice(NT)
        k = want or r.choice(["quantity", "quantity", "quantity_t", "quantity_b", "value", "value_t", "rescale", "rescale_t", "string", "string_t", "json", "json_t", "local", "local_t"])
        if k in ("quantity",):
            t = r.choice(["f64", "f64", "i32"]) if u in ("ft", "mile", "inch", "degC", "degF", "lb") else "f64"
            return k, f"whippyunits::quantity!(@, {u})", t, t, "q", u
        if k == "quantity_t":
            return k, f"whippyunits::quantity!(@, {u}, {t})", t, t, "q", u
        if k == "quantity_b":
            return k, f"whippyunits::quantity!(@, {u}, {t}, BrX)", t, t, "q", u
        if k == "value":
            return k, f"whippyunits::value!(@, {w})", "Q", "f64", "v", u
        if k == "value_t":
            return k, f"whippyunits::value!(@, {w}, {t})", "Q", t, "v", u
        su = {"L": "m", "H": "K", "T": "s", "A": "rad", "V": "m/s", "F": "N", "E": "J", "Z": "Hz", "M": "kg"}
        if k in ("rescale", "rescale_t"):
            st = {"L": "mm", "H": "mK", "T": "ms", "A": "rad", "V": "mm/s", "F": "mN", "E": "mJ", "Z": "Hz", "M": "g"}[fam]
            if k == "rescale":
                return k, f"whippyunits::rescale!(@, {st})", "Q", "f64", "q", u
            return k, f"whippyunits::rescale!(@, {st}, {t})", "Q", t, "q", u
        if k.startswith("string") or k.startswith("json"):
            m = "from_string" if k.startswith("string") else "from_json"
            tt = r.choice(["f64", "Mine"])
            return k, f"whippyunits::{m}!(@, {su[fam]}" + (f", {tt})" if k.endswith("_t") else ")"), "S" if m == "from_string" else "J", tt if k.endswith("_t") else "f64", "r", u
        if k == "local":
            return k, f"loc::quantity!(@, {u})", "f64", "f64", "q", u
        return k, f"loc::quantity!(@, {u}, {t})", t, t, "q", u

    SUFFIX = {}

    def argument(at, t, u, fam_v=None):
        """(shape name, ARG text, type of the argument)"""
        if at == "Q":
            nm, e = r.choice(num_shapes(t))
            un_ = u
            q0 = f"whippyunits::quantity!(%s, {un_}, {t})"
            c = r.random()
            if c < .3:
                return "of_" + nm, q0 % e, None
            one = q0 % lit(t, 40)
            two = q0 % lit(t, 2)
            forms = [("sum", f"tick(&n, {one}) + {two}"), ("block", "{ n.set(n.get()+1); %s }" % one), ("if", "if n.get() == 0 { tick(&n, %s) } else { %s }" % (one, two)),
                     ("scaled", f"tick(&n, {one}) * {lit(t, 2)}"), ("scaled_left", f"{lit(t, 3)} * tick(&n, {one})"), ("deref", f"*&tick(&n, {one})"), ("clone", f"tick(&n, {one}).clone()"),
                     ("closure", f"(|| tick(&n, {one}))()"), ("index", f"[{one}, {two}][{{ n.set(n.get()+1); 1usize }}]"), ("difference", f"{one} - tick(&n, {two})"), ("field", f"(1, tick(&n, {one})).1"),
                     ("match", "match n.get() { 0 => tick(&n, %s), _ => %s }" % (one, two)), ("struct_literal", "Held { x: tick(&n, %s) }.x" % one), ("struct_literal_call", "Held { x: tick(&n, %s) }.get()" % one), ("loop", "loop { break tick(&n, %s) }" % one)]
            if t[0] in "fi":
                forms += [("negation", f"-tick(&n, {one})"), ("negated_sum", f"-(tick(&n, {one}) + {two})")]
            nm, e = r.choice(forms)
            return "q_" + nm, e, None
        if at in "SJ":
            txt = lambda v: f'"{v} {u}"' if at == "S" else '"{\\"value\\": %s, \\"unit\\": \\"%s\\"}"' % (v, u)
            forms = [("call", f"tick(&n, {txt(5)})"), ("block", "{ n.set(n.get()+1); %s }" % txt(6)), ("format", "&tick(&n, %s.to_string())" % txt(7)), ("string_ref", f"tick(&n, &{txt(8)}.to_string()).as_str()"),
                     ("slice", f"&tick(&n, {txt(9)})[..]"), ("if", "if n.get() == 0 { tick(&n, %s) } else { %s }" % (txt(3), txt(4))), ("trim", f"tick(&n, {txt(12)}).trim()"), ("match", "match n.get() { 0 => tick(&n, %s), _ => %s }" % (txt(3), txt(4))),
                     ("deref", "&*tick(&n, %s.to_string())" % txt(14)), ("struct_literal", "Held { x: tick(&n, %s) }.x" % txt(16)), ("iterator", f"[{txt(1)}, {txt(2)}].iter().map(|s| tick(&n, *s)).next().unwrap()"), ("refused", f'tick(&n, "not a quantity")'), ("closure", f"(|| tick(&n, {txt(15)}))()")]
            nm, e = r.choice(forms)
            return "s_" + nm, e, None
        nm, e = r.choice(num_shapes(at))
        return nm, e, at

    def obs(key, kind, expr):
        if kind == "q":
            return f"probe::q(id,\"{key}\",||{expr});"
        if kind == "v":
            return f"probe::v(id,\"{key}\",||{expr});"
        return f"probe::s(id,\"{key}\",||{{ let r = {expr}; match r {{ core::result::Result::Ok(x) => show(&x), core::result::Result::Err(y) => format!(\"refused {{y:?}}\") }} }});"

    CELL = "let n = core::cell::Cell::new(0usize);"

    # 1. argument shapes
    TYPED = [(k, t) for k in ("quantity_t", "quantity_b", "value_t", "rescale_t", "local_t") for t in NT] * (3 * big)
    for want in TYPED + [None] * (300 * big):
        k, tpl, at, t, kind, u = macros(*(want or ()))
        nm, e, ty = argument(at, t, u)
        asc = f": {ty}" if ty else (": &str" if at in "SJ" else "")
        whole, plain = tpl.replace("@", e), tpl.replace("@", "pv")
        body = "{" + CELL + obs("m", kind, whole) + "probe::v(id,\"mn\",||n.get()); }\n"
        # temporaries of ARG live to the end of the statement only when it is matched on
        body += "{" + CELL + obs("p", kind, "match (" + e + ") { pv => { let pv" + asc + " = pv; " + plain + " } }") + "probe::v(id,\"pn\",||n.get()); }"
        cases.append(Case(f"c{len(cases)}", body, dict(kind="shape", name=f"{nm} in {tpl}", text=whole)))
    # 2. control flow
    for want in [w for w in TYPED if r.random() < .5 / big] + [None] * (60 * big):
        k, tpl, at, t, kind, u = macros(*(want or ()))
        nm, f, wrap = r.choice(FLOW)
        if at == "Q":
            base = f"whippyunits::quantity!({lit(t, 12)}, {u}, {t})"
        elif at == "S":
            base = f'"7 {u}"'
        elif at == "J":
            base = '"{\\"value\\": 7, \\"unit\\": \\"%s\\"}"' % u
        else:
            base = lit(at, 9)
        e = f.replace("@", base)
        shown = {"q": "show(&y)", "v": "format!(\"{};{}\", <_ as Nm>::nm(&y), y.bits())", "r": "match y { core::result::Result::Ok(x) => show(&x), core::result::Result::Err(z) => format!(\"refused {z:?}\") }"}[kind]

        def prog(x, pre=""):
            if wrap == "Some":
                return f"{{ let f = || -> Option<String> {{ {pre} let y = {x}; n.set(n.get()+100); Some({shown}) }}; format!(\"{{:?}} {{}}\", f(), n.get()) }}"
            return f"{{ let mut out = Vec::new(); 'outer: for i in 0..2 {{ for j in 0..4 {{ {pre} let y = {x}; n.set(n.get()+100*0+1); out.push((i, j, {shown})); }} out.push((i, 99, String::new())); }} format!(\"{{:?}} {{}}\", out, n.get()) }}"
        body = "{" + CELL + "probe::s(id,\"m\",||" + prog(tpl.replace("@", e)) + "); }\n"
        body += "{" + CELL + "probe::s(id,\"p\",||" + prog(tpl.replace("@", "pv"), f"let pv = {e};") + "); }"
        cases.append(Case(f"c{len(cases)}", body, dict(kind="flow", name=f"{nm} in {tpl}", text=tpl.replace("@", e))))
    # 3. variables named like a macro's own, like the unit, like each other
    for _ in range(110 * big):
        k, tpl, at, t, kind, u = macros()
        name = r.choice(LOCALS + [x for x in ("m", "s", "kg", "ft", "K", "rad", "min", "h", "N", "J", "mm", "deg", "g", "lb", "Hz")])
        if r.random() < .4:
            name = "".join(c for c in tpl.split("@, ")[1] if c.isalpha() or c in ",/*.^ )").split(",")[0].split("/")[0].split("*")[0].split(".")[0].split("^")[0].strip(" )") or "value"
        if at == "Q":
            base, use = f"whippyunits::quantity!({lit(t, 12)}, {u}, {t})", name
        elif at == "S":
            base, use = f'"7 {u}".to_string()', f"&{name}"
        elif at == "J":
            base, use = '"{\\"value\\": 7, \\"unit\\": \\"%s\\"}".to_string()' % u, f"&{name}"
        else:
            base = lit(at, 9)
            use = r.choice([name, f"{name} + {name}", f"{name} * {lit(at, 2)}"])
        body = "{ let %s = %s;" % (name, base) + obs("m", kind, tpl.replace("@", use)) + "}\n"
        body += "{ let zz9 = %s;" % base + obs("p", kind, tpl.replace("@", use.replace(name, "zz9") if at not in "SJ" else "&zz9")) + "}"
        cases.append(Case(f"c{len(cases)}", body, dict(kind="variable", name=f"variable {name} in {tpl}", text=tpl.replace("@", use))))

    # 4. hostile scopes: a fixed battery of calls in a module full of the caller's names
    def battery(n=10):
        out = []
        while len(out) < n:
            k, tpl, at, t, kind, u = macros()
            if at == "Q":
                arg = f"whippyunits::quantity!({lit(t, 12)}, {u}, {t})"
            elif at in "SJ":
                arg = f'"7 {u}"' if at == "S" else '"{\\"value\\": 7, \\"unit\\": \\"%s\\"}"' % u
            else:
                arg = lit(at, 9)
            out.append((tpl.replace("@", arg), kind))
        return out
    SCOPES = [
        ("own Result alias", "pub type Result<T> = core::result::Result<T, String>;"),
        ("own Result, Option, Vec, String and Box types", "pub struct Result; pub struct Option; pub struct Vec; pub struct String; pub struct Box; pub struct Iterator;"),
        ("variants Ok and Err", "pub enum Status { Ok(u8), Err(u8), Some(u8), None } pub use Status::*;"),
        ("types named like the library's", "pub struct Scale; pub struct Dimension; pub struct Quantity; pub struct _2; pub struct _M; pub struct _Pi; pub struct Brand; pub struct Helper; pub struct TargetQuantity;"),
        ("constants named like the expansion's", "pub const UNIT_INFO: u8 = 1; pub const DIMENSIONS: u8 = 2; pub const SCALES: u8 = 3; pub static SCALE: u8 = 4; pub const T: u8 = 5;"),
        ("types named like units", "pub struct m; pub struct s; pub struct kg; pub struct K; pub struct N; pub struct J; pub struct ft; pub struct rad; pub struct degC; pub type g = u8; pub type h = u8; pub type min = u8; pub type mm = u8;"),
        ("functions and constants named like units", "pub fn m() {} pub fn s() {} pub const kg: f64 = 2.0; pub fn N() {} pub fn J() {} pub static K: f64 = 1.0; pub fn min() {} pub fn ft() {} pub fn deg() {} pub fn degC() {}"),
        ("modules named like units and like the library's", "pub mod m { pub struct X; } pub mod s {} pub mod kg {} pub mod quantity {} pub mod api {} pub mod serialization {} pub mod default_declarators {} pub mod whippyunits_core {} pub mod whippyunits_proc_macros {}"),
        ("macros named like the library's", "macro_rules! unit { ($($t:tt)*) => { compile_error!(\"caller's unit\") } } macro_rules! quantity { ($($t:tt)*) => { compile_error!(\"caller's quantity\") } } macro_rules! value { ($($t:tt)*) => { compile_error!(\"caller's value\") } } macro_rules! local_unit { ($($t:tt)*) => { compile_error!(\"caller's local_unit\") } } macro_rules! rescale { ($($t:tt)*) => { compile_error!(\"caller's rescale\") } } macro_rules! compute_unit_dimensions { ($($t:tt)*) => { compile_error!(\"caller's\") } }"),
        ("functions named like the library's", "pub fn rescale() {} pub fn rescale_f64() {} pub fn rescale_i32() {} pub fn rescale_f32() {} pub fn deserialize_core_quantity() {} pub fn parse_json_input() {} pub fn value() {} pub fn quantity() {}"),
        ("traits with the library's names", "pub trait Scale {} pub trait Quantity {} pub trait Dimension {} pub trait Rescale {} pub trait LocalMass {} pub trait MetricLength {} pub trait ImperialLength {} pub trait ImperialMass {}"),
        ("default lints denied", "DENY"),
        ("unsafe forbidden", "FORBID"),
        ("the whole library imported by name", "pub use whippyunits::quantity::*; pub use whippyunits::api::*; pub use whippyunits::*; pub use whippyunits::default_declarators::*;"),
        ("a local scale imported by name", "pub use super::loc::*;"),
    ]
    for si, (sn, items) in enumerate(SCOPES):
        for rep in range(3 * big):
            bat = battery()
            for j, (call, kind) in enumerate(bat):
                i = len(cases)
                attr = ""
                its = items
                if items == "DENY":
                    attr, its = "#[deny(unused, nonstandard_style, deprecated, unreachable_code, non_local_definitions)]", ""
                elif items == "FORBID":
                    attr, its = "#[forbid(unsafe_code)]", ""
                loc = "pub use super::loc;" if "super::loc" not in its else "pub use super::loc;"
                uses = "loc::" in call
                brx = "BrX" in call
                call = call.replace("Mine", "super::Mine")
                cl = call.replace("BrX", "super::BrX").replace("loc::", "super::loc::")
                if sn == "types named like the library's" and brx:
                    b = r.choice(["Scale", "Dimension", "Quantity", "_2", "_M", "Brand"])
                    cl = call.replace("BrX", b)
                    items_m = its
                else:
                    b = None
                if kind == "q":
                    f = f"pub fn go() -> impl super::Reflect {{ {cl} }}"
                elif kind == "v":
                    f = f"pub fn go() -> impl super::Bits {{ {cl} }}"
                else:
                    f = f"pub fn go() -> core::result::Result<impl super::Reflect, whippyunits::serialization::SerializationError> {{ {cl} }}"
                mod = f"{attr} pub mod k{i} {{ {'' if attr else '#![allow(warnings)]'} {its}\n {f} }}"
                clean = f"pub mod p{i} {{ {f if not b else f.replace(cl, call.replace('BrX', f'super::k{i}::' + b))} }}"
                mk = lambda w: obs("m" if w[0] == "k" else "p", kind, f"{w}::go()")
                cases.append(Case(f"c{i}", mk(f"k{i}") + "\n" + mk(f"p{i}"), dict(kind="scope", name=f"{sn}: {call}", text=call), items=mod + "\n" + clean))
    # 5. arguments computed with the caller's own items, named like something of the library's
    TY = ["Scale", "Dimension", "Quantity", "_2", "_3", "_5", "_Pi", "_M", "_L", "_T", "_I", "_N", "_J", "_A", "TargetQuantity", "TargetQuantityUnbranded", "ImperialLength", "ImperialMass", "ImperialTemperatureAffine",
          "MetricTemperatureAffine", "MetricLengthNonStorage", "MetricAngleNonStorage", "ImperialEnergy", "MetricEnergyNonStorage", "Helper", "GetSecondGeneric", "SerializationError", "Brand", "Unit", "UNIT", "T", "V", "Result2", "m", "s", "K", "ft", "N"]
    FN = ["rescale", "rescale_f64", "rescale_i32", "value", "raw_value", "converted_value", "storage_value", "scaled_value", "declared_quantity", "declared_value", "result", "unit_str", "deserialized", "parse_string_input", "deserialize_core_quantity",
          "quantity", "unit", "api", "m", "s", "kg", "K", "ft", "rad", "N", "J", "min", "new", "feet", "pounds"]
    CN = ["UNIT_INFO", "DIMENSIONS", "SCALES", "CF", "AF", "OFFSET", "SCALE_P2", "MASS_EXPONENT", "M", "L", "T", "K", "N", "J", "A", "P2", "PI", "F", "C", "RAD"]
    PAIRS = [("TargetQuantity", "rescale"), ("TargetQuantity", "rescale_t"), ("ImperialLength", "ft"), ("ImperialLength", "mile"), ("ImperialMass", "lb"), ("ImperialTemperatureAffine", "degF"), ("MetricTemperatureAffine", "degC"),
             ("MetricAngleNonStorage", "rot"), ("MetricEnergyNonStorage", "cal"), ("Scale", "quantity"), ("Dimension", "quantity_t"), ("Quantity", "quantity_t"), ("_M", "quantity"), ("Scale", "value"), ("Quantity", "value_t"), ("_2", "local"), ("Dimension", "local_t"),
             ("UNIT_INFO", "string"), ("SCALES", "json"), ("DIMENSIONS", "string")]
    # the library's own functions, against every macro and a unit that is converted
    LIBFN = ["rescale", "rescale_f64", "rescale_f32", "rescale_i32", "rescale_i64", "aggregate_scale_factor_float", "reduce_rational", "powi", "deserialize_core", "deserialize_core_quantity", "parse_string_input",
             "parse_json_input", "parse_ucum_unit", "validate_dimensions", "from", "into", "add", "mul", "div", "scale"]
    KINDS = ["quantity", "quantity_t", "value", "value_t", "rescale", "rescale_t", "string", "json", "local", "local_t"]
    NAMED = [None] * (130 * big) + PAIRS * 3 * big + [(f, r.choice(KINDS), "fn") for f in LIBFN * 2 * big] + [(f, k, "fn") for f in ("rescale", "rescale_f64", "from") for k in KINDS] * big
    for want in NAMED:
        k, tpl, at, t, kind, u = macros()
        for _ in range(3000):
            if want is None or (want[1] == k and (len(want) < 3 or r.random() < .1 or k in ("rescale", "rescale_t", "local", "local_t", "string", "json") or un.BY_SYMBOL.get(u) and not un.BY_SYMBOL[u].storage)) or (k == "quantity" and tpl.endswith(f"@, {want[1]})")):
                break
            k, tpl, at, t, kind, u = macros()
        if "Mine" in tpl or "BrX" in tpl:
            continue
        i = len(cases)
        tpl = tpl.replace("loc::", "super::loc::")
        if at == "Q":
            base = f"whippyunits::quantity!({lit(t, 12)}, {u}, {t})"
        elif at in "SJ":
            base = f'"7 {u}"' if at == "S" else '"{\\"value\\": 7, \\"unit\\": \\"%s\\"}"' % u
        else:
            base = lit(at, 9)
        c = r.random()
        if (c < .5 or want) and not (want and len(want) > 2):
            n = want[0] if want else r.choice(TY)
            how = r.choice(["assoc", "const", "method", "field"])
            if how == "const" and at not in "QSJ":
                its, e = f"pub struct {n}; impl {n} {{ pub const V: {at} = {base}; }}", f"{n}::V"
            elif how == "method" and n not in ("m", "s", "K", "ft", "N"):
                its, e = f"pub struct {n}; impl {n} {{ pub fn get<X>(&self, x: X) -> X {{ x }} }}", f"{n}.get({base})"
            elif how == "field" and n not in ("m", "s", "K", "ft", "N"):
                its, e = f"pub struct {n}<X>(pub X);", f"{n}({base}).0"
            else:
                its, e = f"pub struct {n}; impl {n} {{ pub fn get<X>(x: X) -> X {{ x }} }}", f"{n}::get({base})"
        elif c < .8 or want:
            n = want[0] if want else r.choice(FN)
            its, e = f"pub fn {n}<X>(x: X) -> X {{ x }}", f"{n}({base})"
        else:
            n = r.choice(CN)
            if at in "Q":
                continue
            its, e = f"pub const {n}: {at if at not in 'SJ' else '&str'} = {base};", n
        ret = {"q": "impl super::Reflect", "v": "impl super::Bits", "r": "core::result::Result<impl super::Reflect, whippyunits::serialization::SerializationError>"}[kind]
        mod = f"pub mod k{i} {{ #![allow(warnings)] {its}\n pub fn go() -> {ret} {{ {tpl.replace('@', e)} }} }}"
        clean = f"pub mod p{i} {{ pub fn go() -> {ret} {{ {tpl.replace('@', base)} }} }}"
        cases.append(Case(f"c{i}", obs("m", kind, f"k{i}::go()") + "\n" + obs("p", kind, f"p{i}::go()"), dict(kind="names", name=f"{its.split('{')[0].strip()} in {tpl}", text=tpl.replace("@", e)), items=mod + "\n" + clean))
    # 6. through the caller's macros
    WR = [("expr_ident", "($v:expr, $u:ident) => { whippyunits::quantity!($v, $u) }", "i"), ("expr_tt", "($v:expr, $($u:tt)*) => { whippyunits::quantity!($v, $($u)*) }", "any"),
          ("expr_ident_ty", "($v:expr, $u:ident, $t:ty) => { whippyunits::quantity!($v, $u, $t) }", "it"), ("expr_expr_ty", "($v:expr, $u:expr, $t:ty) => { whippyunits::quantity!($v, $u, $t) }", "et"),
          ("expr_expr", "($v:expr, $u:expr) => { whippyunits::quantity!($v, $u) }", "e"), ("read", "($v:expr, $u:ident, $t:ident) => { whippyunits::value!(whippyunits::quantity!($v, $u, $t), $u, $t) }", "vi"),
          ("product", "($v:expr, $u:ident, $w:ident) => { whippyunits::quantity!($v, $u * $w) }", "2"), ("power", "($v:expr, $u:ident) => { whippyunits::quantity!($v, $u^2) }", "p"),
          ("type", "($v:expr, $u:ident) => { { let q: whippyunits::unit!($u) = whippyunits::quantity!($v, $u); q } }", "ts"), ("twice", "($v:expr, $u:ident) => { inner!($v + 1.0, $u) }", "w")]
    for _ in range(70 * big):
        nm, rule, k = r.choice(WR)
        stor = ["m", "s", "kg", "K", "rad", "mm", "N", "J", "Hz", "km"]
        anyu = stor + ["ft", "degC", "degF", "min", "lb", "deg", "mile", "h", "cal"]
        u = r.choice(stor if k in ("ts",) else anyu)
        v = r.choice(["2.5 + 3.0", "-4.0", "{ n.set(n.get()+1); 6.0 }", "(|| 7.5)()", "if true { 1.5 } else { 2.5 }", "8.0"])
        t = r.choice(["f64", "f32"])
        i = len(cases)
        if k == "any":
            u = r.choice(["m/s", "kg.m^2/s2", "ft/s^2", "1/s", "mm", "degC", "lb*ft/s^2", "10^3*m"])
            call, direct = f"w{i}!({v}, {u})", f"whippyunits::quantity!(({v}), {u})"
        elif k in ("e", "et"):
            u = r.choice(["m/s", "kg*m", "ft", "m", "degF", "kg*m/s"])
            call, direct = (f"w{i}!({v}, {u}, {t})", f"whippyunits::quantity!(({v}), {u}, {t})") if k == "et" else (f"w{i}!({v}, {u})", f"whippyunits::quantity!(({v}), {u})")
        elif k == "it":
            call, direct = f"w{i}!({v}, {u}, {t})", f"whippyunits::quantity!(({v}), {u}, {t})"
        elif k == "vi":
            call, direct = f"w{i}!({v}, {u}, {t})", f"whippyunits::value!(whippyunits::quantity!(({v}), {u}, {t}), {u}, {t})"
        elif k == "2":
            w = r.choice(stor)
            call, direct = f"w{i}!({v}, {u}, {w})", f"whippyunits::quantity!(({v}), {u} * {w})"
        elif k == "p":
            call, direct = f"w{i}!({v}, {u})", f"whippyunits::quantity!(({v}), {u}^2)"
        elif k == "w":
            call, direct = f"w{i}!({v}, {u})", f"whippyunits::quantity!(({v}) + 1.0, {u})"
            rule = rule.replace("inner!", f"in{i}!")
        else:
            call, direct = f"w{i}!({v}, {u})", f"whippyunits::quantity!(({v}), {u})"
        kind = "v" if k == "vi" else "q"
        items = (f"macro_rules! in{i} {{ ($v:expr, $u:ident) => {{ whippyunits::quantity!($v, $u) }} }}\n" if k == "w" else "") + f"macro_rules! w{i} {{ {rule} }}"
        body = "{" + CELL + obs("m", kind, call) + "probe::v(id,\"mn\",||n.get()); }\n{" + CELL + obs("p", kind, direct) + "probe::v(id,\"pn\",||n.get()); }"
        cases.append(Case(f"c{i}", body, dict(kind="wrapper", name=f"{nm}: {call}", text=call + "  with  " + rule), items=items))

    # 7. local scales used in other modules than the one that declares them
    SC = [["Kilogram", "Gram", "Megagram"], ["Meter", "Millimeter", "Kilometer"], ["Second", "Millisecond"], ["Ampere", "Milliampere"], ["Kelvin"], ["Mole"], ["Candela"], ["Radian"]]
    decls, elsewhere = [], []
    for i in range(3 * big):
        ns, brand, scaled = f"zone{i}", i % 3 > 0, i % 3 < 2
        decls.append(f"whippyunits::define_unit_declarators!({', '.join([ns] + ['Brz'] * brand + [r.choice(x) for x in SC] * scaled)});")
        cs = []
        forms = []
        for _ in range(6):
            u = r.choice(["m", "km", "ft", "kg", "s", "min", "N", "m/s", "kg.m/s2", "degC", "J"])
            t = r.choice(["f64", "f32", "i32", "u32", "i64"]) if u in ("m", "s", "km", "kg") else r.choice(["f64", "f32"])
            c = r.choice([f"quantity!(2.5, {u})", f"quantity!({lit(t, 12)}, {u}, {t})"])
            forms += [("quantity! by name", f"use {{}}::{ns}::quantity;", "", c), ("quantity! by glob", f"use {{}}::{ns}::*;", "", c), ("quantity! by path", "", "", f"{{}}::{ns}::{c}")]
        for _ in range(6):
            u = r.choice(["m", "km", "mm", "kg", "s", "N", "mJ", "ft", "degC"])
            c = r.choice([f"2.5{u}", f"2.5{u}_f64", f"2.5{u}_f32"] + ([f"12{u}", f"12{u}_i32", f"12{u}_i64", f"3000000000{u}_u32", f"12{u}_u64"] if u in ("m", "mm", "s", "kg") else []))
            forms.append(("literal", "", f"#[culit::culit({{}}::{ns}::literals)]", c))
        forms += [("method", f"use {{}}::{ns}::*;", "", c) for c in ("2.5f64.meters()", "3i32.seconds()", "7i64.grams()")]
        for how, use, attr, c in forms:
            for inscope in ([False, True] if brand and r.random() < .2 else [True] if brand else [False]):
                j = len(cases) + sum(len(x) for x in elsewhere) + len(cs)
                def at(path, own, name, vis=""):
                    rep = lambda x: x.replace("{}", path)
                    return f"{rep(attr)} {vis}fn {name}() -> impl Reflect {{ {'use ' + path + '::' + ns + ';' if own else ''} {rep(use)} {rep(c)} }}"
                deep = r.random() < .3
                path = "crate" if r.random() < .5 else "super::super" if deep else "super"
                inner = f"pub mod k{j} {{ use probe::*; {at(path, inscope, 'go', 'pub ')} }}"
                items = (f"pub mod o{j} {{ {inner} }}" if deep else inner) + "\n" + at("self", False, f"p{j}")
                call = f"{'o%d::' % j if deep else ''}k{j}::go()"
                cs.append(Case(f"c{j}", obs("m", "q", call) + "\n" + obs("p", "q", f"p{j}()"),
                               dict(kind="elsewhere", name=f"{how}: {c} of {'branded ' * brand}{'rescaled' if scaled else 'copied'} scale, its module {'in scope' if inscope else 'not in scope'}, {path}", text=c, outside=brand and not inscope, ns=ns), items=items))
        elsewhere.append(cs)

    extra = ("whippyunits::define_unit_declarators!(loc, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);\n"
             "#[derive(Clone,Copy,PartialEq)] pub struct BrX;\n"
             "fn tick<X>(n: &core::cell::Cell<usize>, x: X) -> X { n.set(n.get() + 1); x }\n"
             "fn opt<X>(n: &core::cell::Cell<usize>, some: bool, x: X) -> Option<X> { n.set(n.get() + 1); if some { Some(x) } else { None } }\n"
             "#[derive(Clone,Copy,PartialEq)] pub struct Mine(f64); impl From<f64> for Mine { fn from(x: f64) -> Mine { Mine(x + 0.0) } } impl Bits for Mine { fn bits(&self) -> String { self.0.bits() } fn tname() -> &'static str { \"Mine\" } }\n"
             "pub struct Held<X> { x: X } impl<X> Held<X> { fn get(self) -> X { self.x } }\n"
             "trait Nm { fn nm(&self) -> &'static str; } impl<X: Bits> Nm for X { fn nm(&self) -> &'static str { X::tname() } }\n")
    p = Project("W24", prelude=PRE + "\n" + extra, core_dep=False, deps='culit = "0.6.0"\n')
    p.spread(cases, 10)
    for i, (d, cs) in enumerate(zip(decls, elsewhere)):
        p.add_bin(f"zone{i}", cs, d)
        cases += cs
    p.build(max_rounds=6)
    chk.log(f"{len(cases)} cases built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    obs_ = {}
    for e in p.run():
        obs_.setdefault(e[0], {})[e[1]] = e[2:]
    for c in cases:
        m = c.meta
        name = m["kind"] + ": " + m["name"]
        if c.id in p.rejected:
            code, msg, txt = p.rejected[c.id][0]
            if m.get("outside") and all(e[0] == "E0433" and f"`{m['ns']}`" in e[1] for e in p.rejected[c.id]):
                chk.count("branded scale not reachable")
                chk.violate("branded-scale-outside-its-scope", f"quantity! or a literal of a branded scale names the brand by the bare name of the scale's module, so it does not compile where that name is not in scope, e.g. {name}", c.items + "\n" + c.body); continue
            chk.violate("rejected:" + name, f"{name}: does not compile: {code} {msg[:200]}", c.items + "\n" + c.body + "\n" + txt[:1500]); continue
        o = obs_.get(c.id, {})
        if c.id in p.crashed or "PANIC" in o:
            chk.violate("crash:" + name, f"{name}: {p.crashed.get(c.id)} {o}", c.body); continue
        a, b = o.get("m"), o.get("p")
        if a is None or b is None:
            chk.violate("lost:" + name, f"{name}: {o}", c.body); continue
        if a != b:
            chk.violate("differs:" + name, f"{m['text']}: the call gives {a}, with its argument evaluated beforehand / outside the scope / written out {b}", c.items + c.body)
        if o.get("mn") != o.get("pn"):
            chk.violate("evaluations:" + name, f"{m['text']}: the argument is evaluated {o.get('mn')} times, once is {o.get('pn')}", c.body)
        elif m["kind"] == "shape" and o.get("pn") != ("ok", "usize;1"):
            chk.violate("harness:" + name, f"{m['text']}: plain form counts {o.get('pn')}", c.body)
        chk.count(m["kind"])
        chk.saw(name, sample={"call": m["text"], "result": a[-1]} if r.random() < .005 else None)
    return chk.finish(min_events=800)
