"""Independent catalogue of units: what each spelling means physically.

Written from the SI brochure / NIST SP 811 / customary definitions, not from the code under
test.  A magnitude is Fraction * pi**k in coherent SI (kg, m, s, A, K, mol, cd, rad);
a unit also has a zero point (kelvin offset) for affine temperature scales."""
from decimal import Decimal, getcontext
from fractions import Fraction as F
import math
import struct

getcontext().prec = 80
PI_STR = "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651"
PI = F(PI_STR)

DIMS = ["M", "L", "T", "I", "Θ", "N", "J", "A"]


def dim(**k):
    return tuple(k.get(d, 0) for d in ("M", "L", "T", "I", "TH", "N", "J", "A"))


class U:
    __slots__ = ("name", "plural", "symbols", "dim", "mag", "pi", "off", "prefix", "store", "affine",
                 "system", "storage", "family")

    def __init__(self, name, symbols, d, mag, pi=0, off=None, prefix=False, plural=None, system="Metric",
                 storage=None, family=None):
        self.name, self.symbols, self.dim = name, symbols, d
        self.mag, self.pi = F(mag), pi
        self.off = F(off) if off is not None else F(0)   # value_in_SI = mag*(x+off)
        self.affine = off is not None
        self.prefix = prefix
        self.plural = plural or name + "s"
        self.system = system
        self.storage = storage     # True: number is stored unchanged
        self.family = family

    @property
    def value(self):
        return self.mag * PI ** self.pi


M1 = dim(M=1); L1 = dim(L=1); T1 = dim(T=1); TH1 = dim(TH=1); A1 = dim(A=1)
VOL = dim(L=3); ENERGY = dim(M=1, L=2, T=-2); POWER = dim(M=1, L=2, T=-3); PRES = dim(M=1, L=-1, T=-2)
LB = F("0.45359237"); IN = F("0.0254"); FT = 12 * IN; G0 = F("9.80665")
GAL = 231 * IN ** 3; UKGAL = F("0.00454609")
LBF = LB * G0

S = True
N_ = False
CATALOGUE = [
    U("gram", ["g"], M1, F(1, 1000), prefix=True, storage=S, family="Mass"),
    U("grain", ["gr"], M1, LB / 7000, system="Imperial", storage=N_),
    U("carat", ["ct"], M1, F("0.0002"), storage=S),
    U("ounce", ["oz"], M1, LB / 16, system="Imperial", storage=N_),
    U("troy_ounce", ["ozt"], M1, LB / 7000 * 480, system="Imperial", storage=N_),
    U("troy_pound", ["lbt"], M1, LB / 7000 * 5760, system="Imperial", storage=N_),
    U("pound", ["lb"], M1, LB, system="Imperial", storage=N_),
    U("stone", ["st"], M1, 14 * LB, plural="stone", system="Imperial", storage=N_),
    U("ton", ["t"], M1, 2240 * LB, system="Imperial", storage=N_),      # long ton (by its neighbours and value)
    U("meter", ["m"], L1, 1, prefix=True, storage=S),
    U("inch", ["in"], L1, IN, plural="inches", system="Imperial", storage=N_),
    U("foot", ["ft"], L1, FT, plural="feet", system="Imperial", storage=N_),
    U("yard", ["yd"], L1, 3 * FT, system="Imperial", storage=N_),
    U("mile", ["mi"], L1, 5280 * FT, system="Imperial", storage=N_),
    U("nautical_mile", ["nmi"], L1, 1852, system="Imperial", storage=N_),
    U("astronomical_unit", ["AU"], L1, 149597870700, system="Astronomical", storage=N_),
    U("light_year", ["ly"], L1, 9460730472580800, system="Astronomical", storage=N_),
    U("parsec", ["pc"], L1, F("3.0856775814913673e16"), system="Astronomical", storage=N_),
    U("second", ["s"], T1, 1, prefix=True, storage=S),
    U("minute", ["min"], T1, 60, storage=S),
    U("hour", ["h", "hr"], T1, 3600, storage=S),
    U("day", ["d"], T1, 86400, storage=S),
    U("week", ["wk"], T1, 604800, storage=N_),
    U("month", ["mo"], T1, 30 * 86400, storage=S),
    U("year", ["yr"], T1, F("31556926"), storage=N_),
    U("ampere", ["A"], dim(I=1), 1, prefix=True, storage=S),
    U("kelvin", ["K"], TH1, 1, prefix=True, plural="kelvin", storage=S),
    U("celsius", ["degC"], TH1, 1, off="273.15", plural="celsius", storage=N_),
    U("rankine", ["degR"], TH1, F(5, 9), plural="rankine", system="Imperial", storage=S),
    U("fahrenheit", ["degF"], TH1, F(5, 9), off="459.67", plural="fahrenheit", system="Imperial", storage=N_),
    U("mole", ["mol"], dim(N=1), 1, prefix=True, storage=S),
    U("candela", ["cd"], dim(J=1), 1, prefix=True, plural="candela", storage=S),
    U("radian", ["rad"], A1, 1, prefix=True, storage=S),
    U("degree", ["deg"], A1, F(1, 180), pi=1, storage=S),
    U("gradian", ["grad"], A1, F(1, 200), pi=1, storage=S),
    U("turn", ["rot", "turn"], A1, 2, pi=1, storage=S),
    U("arcminute", ["arcmin"], A1, F(1, 180 * 60), pi=1, storage=S),
    U("arcsecond", ["arcsec"], A1, F(1, 180 * 3600), pi=1, storage=S),
    U("hectare", ["hect"], dim(L=2), 10000, prefix=True, storage=S),
    U("acre", ["acre"], dim(L=2), 43560 * FT ** 2, system="Imperial", storage=N_),
    U("liter", ["L", "l"], VOL, F(1, 1000), prefix=True, storage=S),
    U("gallon", ["gal", "gallon"], VOL, GAL, system="Imperial", storage=N_),
    U("quart", ["qrt"], VOL, GAL / 4, system="Imperial", storage=N_),
    U("pint", ["pnt"], VOL, GAL / 8, system="Imperial", storage=N_),
    U("cup", ["cup"], VOL, GAL / 16, system="Imperial", storage=N_),
    U("fluid_ounce", ["fl_oz"], VOL, GAL / 128, system="Imperial", storage=N_),
    U("tablespoon", ["tbsp"], VOL, GAL / 256, system="Imperial", storage=N_),
    U("teaspoon", ["tsp"], VOL, GAL / 768, system="Imperial", storage=N_),
    U("uk_gallon", ["uk_gal"], VOL, UKGAL, system="Imperial", storage=N_),
    U("uk_quart", ["uk_qrt"], VOL, UKGAL / 4, system="Imperial", storage=N_),
    U("uk_pint", ["uk_pnt"], VOL, UKGAL / 8, system="Imperial", storage=N_),
    U("uk_cup", ["uk_cup"], VOL, UKGAL / 16, system="Imperial", storage=N_),
    U("uk_fluid_ounce", ["uk_fl_oz"], VOL, UKGAL / 160, system="Imperial", storage=N_),
    U("uk_tablespoon", ["uk_tbsp"], VOL, UKGAL / 256, system="Imperial", storage=N_),
    U("uk_teaspoon", ["uk_tsp"], VOL, UKGAL / 768, system="Imperial", storage=N_),
    U("bushel", ["bu"], VOL, F("2150.42") * IN ** 3, system="Imperial", storage=N_),
    U("hertz", ["Hz"], dim(T=-1), 1, prefix=True, storage=S),
    U("newton", ["N"], dim(M=1, L=1, T=-2), 1, prefix=True, storage=S),
    U("joule", ["J"], ENERGY, 1, prefix=True, storage=S),
    U("electron_volt", ["eV"], ENERGY, F("1.602176634e-19"), storage=N_),
    U("erg", ["erg"], ENERGY, F("1e-7"), storage=S),
    U("newton_meter", ["Nm"], ENERGY, 1, storage=S),
    U("calorie", ["cal"], ENERGY, F("4.184"), storage=N_),
    U("foot_pound", ["ft_lb"], ENERGY, LBF * FT, system="Imperial", storage=N_),
    U("kilowatt_hour", ["kWh"], ENERGY, 3600000, storage=S),
    U("therm", ["thm"], ENERGY, F("105505585.262"), system="Imperial", storage=N_),
    U("watt", ["W"], POWER, 1, prefix=True, storage=S),
    U("horsepower", ["hp"], POWER, 550 * LBF * FT, plural="horsepower", system="Imperial", storage=N_),
    U("pascal", ["Pa"], PRES, 1, prefix=True, storage=S),
    U("torr", ["Torr"], PRES, F(101325, 760), plural="torr", storage=N_),
    U("psi", ["psi"], PRES, LBF / IN ** 2, plural="psi", system="Imperial", storage=N_),
    U("bar", ["bar"], PRES, 100000, plural="bar", storage=S),
    U("atmosphere", ["atm"], PRES, 101325, storage=N_),
    U("coulomb", ["C"], dim(T=1, I=1), 1, prefix=True, storage=S),
    U("volt", ["V"], dim(M=1, L=2, T=-3, I=-1), 1, prefix=True, storage=S),
    U("farad", ["F"], dim(M=-1, L=-2, T=4, I=2), 1, prefix=True, storage=S),
    U("ohm", ["Ω"], dim(M=1, L=2, T=-3, I=-2), 1, prefix=True, storage=S),
    U("siemens", ["S"], dim(M=-1, L=-2, T=3, I=2), 1, prefix=True, storage=S),
    U("henry", ["H"], dim(M=1, L=2, T=-2, I=-2), 1, prefix=True, plural="henries", storage=S),
    U("tesla", ["T"], dim(M=1, T=-2, I=-1), 1, prefix=True, storage=S),
    U("gauss", ["G"], dim(M=1, T=-2, I=-1), F("1e-4"), storage=S),
    U("weber", ["Wb"], dim(M=1, L=2, T=-2, I=-1), 1, prefix=True, storage=S),
    U("lux", ["lx"], dim(L=-2, J=1), 1, prefix=True, plural="lux", storage=S),
    # lumen: luminous flux, cd sr (the steradian being rad^2 or 1); never cd/m^2 -- see known findings
    U("lumen", ["lm"], dim(J=1), 1, storage=S),
    U("stokes", ["St"], dim(L=2, T=-1), F("1e-4"), prefix=True, storage=S),
]
PREFIXES = [("quecto", "q", -30), ("ronto", "r", -27), ("yocto", "y", -24), ("zepto", "z", -21), ("atto", "a", -18),
            ("femto", "f", -15), ("pico", "p", -12), ("nano", "n", -9), ("micro", "µ", -6), ("milli", "m", -3),
            ("centi", "c", -2), ("deci", "d", -1), ("deca", "da", 1), ("hecto", "h", 2), ("kilo", "k", 3),
            ("mega", "M", 6), ("giga", "G", 9), ("tera", "T", 12), ("peta", "P", 15), ("exa", "E", 18),
            ("zetta", "Z", 21), ("yotta", "Y", 24), ("ronna", "R", 27), ("quetta", "Q", 30)]
BY_NAME = {u.name: u for u in CATALOGUE}
BY_SYMBOL = {s: u for u in CATALOGUE for s in u.symbols}
# relative uncertainty of the definition itself (IAU parsec truncated; everything else is exact)
LOOSE = {"parsec": 1e-9}


class Sp:
    """A spelling of a unit: text, catalogue unit, decimal prefix exponent."""
    __slots__ = ("text", "u", "p", "kind")

    def __init__(self, text, u, p=0, kind="symbol"):
        self.text, self.u, self.p, self.kind = text, u, p, kind

    @property
    def mag(self):
        return self.u.mag * F(10) ** self.p

    @property
    def value(self):
        return self.u.value * F(10) ** self.p


def spellings(names=False, prefixes=True, caps=False):
    """caps: prefix names may also start with a capital (Kilometer)"""
    out, seen = [], {}
    for u in CATALOGUE:
        for s in u.symbols:
            out.append(Sp(s, u)); seen[s] = u
    for u in CATALOGUE:
        if names and u.name not in seen:
            out.append(Sp(u.name, u, 0, "name")); seen[u.name] = u
    if prefixes:
        for u in CATALOGUE:
            if not u.prefix:
                continue
            for pn, ps, pe in PREFIXES:
                for t in [x + s for s in u.symbols for x in (("µ", "u") if pe == -6 else (ps,))]:
                    if t not in seen:      # an unprefixed spelling (min, cd, Pa, ft...) wins
                        out.append(Sp(t, u, pe, "prefixed")); seen[t] = u
                for t in [pn + u.name] + [pn.capitalize() + u.name] * caps if names else []:
                    if t not in seen:
                        out.append(Sp(t, u, pe, "prefixed-name")); seen[t] = u
    return out


def scale_value(sc):
    """(p2,p3,p5,pi) -> exact-to-80-digits Fraction"""
    return F(2) ** sc[0] * F(3) ** sc[1] * F(5) ** sc[2] * PI ** sc[3]


def f64(bits):
    if bits == "nan":
        return math.nan
    return struct.unpack(">d", bytes.fromhex(bits))[0]


def f32(bits):
    if bits == "nan":
        return math.nan
    return struct.unpack(">f", bytes.fromhex(bits))[0]


def to_f32(x):
    try:
        return struct.unpack(">f", struct.pack(">f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def bits64(x):
    return struct.pack(">d", x).hex()


def bits32(x):
    return struct.pack(">f", x).hex()


def parse_num(tname, b):
    """a stored value as python number (float, int)"""
    if tname == "f64":
        return f64(b)
    if tname == "f32":
        return f32(b)
    return int(b)


def rel_err(got, want):
    """|got-want|/|want| with want an exact Fraction, got finite"""
    g = F(got)
    if want == 0:
        return 0.0 if g == 0 else math.inf
    e = abs((g - want) / want)
    return float(e) if e < F(10) ** 300 else math.inf


INTS = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1),
        "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
        "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1)}
FLOATS = {"f64": 2.0**-53, "f32": 2.0**-24}
EPS = {"f64": 2.0**-53, "f32": 2.0**-24}


class Q:
    """a decoded 'unit;T;brand;value' observation"""
    __slots__ = ("scale", "dim", "t", "brand", "bits")

    def __init__(self, s):
        u, self.t, self.brand, self.bits = s.split(";")
        e = tuple(int(x) for x in u.split(","))
        self.scale, self.dim = e[:4], e[4:]

    @property
    def num(self):
        return parse_num(self.t, self.bits)

    @property
    def si(self):
        return F(self.num) * scale_value(self.scale)


def qtype(scale, d, t="f64", brand="()"):
    """Rust type text"""
    a = ",".join(f"{n}<{e}>" for n, e in zip(("_2", "_3", "_5", "_Pi"), scale))
    b = ",".join(f"{n}<{e}>" for n, e in zip(("_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"), d))
    return f"Quantity<Scale<{a}>,Dimension<{b}>,{t},{brand}>"


def lit(t, v):
    """Rust literal for a python number in type t"""
    if t == "f64":
        return f"f64::from_bits(0x{bits64(v)})"
    if t == "f32":
        return f"f32::from_bits(0x{bits32(v)})"
    if v < 0:
        lo = INTS[t][0]
        if v == lo:
            return f"{t}::MIN"
        return f"(-{-v}{t})"
    return f"{v}{t}"


KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final
macro override priv typeof unsized virtual yield try gen""".split())


def macro_ok(text):
    """can this spelling be written as a Rust identifier (so that a macro can receive it)?"""
    return text.isidentifier() and text not in KEYWORDS
