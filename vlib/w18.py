"""W18: sizes, alignments and heap allocations are observed from inside (counting global allocator), in every
feature configuration; the value logs of the configurations are compared; a freestanding program is linked."""
import json, os, subprocess
import common, gen, units as un
from common import Project, Case, Inconclusive, NoBuild
from w17 import sample

PRE = r"""
use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity,value,rescale,define_unit_declarators};
use whippyunits::default_declarators::*; use whippyunits::dimension_traits::define_generic_dimension; use probe::*;
use std::alloc::{GlobalAlloc,Layout,System}; use std::cell::Cell; use std::hint::black_box; use std::mem::*;
thread_local!{ static NA: Cell<usize> = const { Cell::new(0) }; }
struct Cnt;
unsafe impl GlobalAlloc for Cnt {
  unsafe fn alloc(&self,l:Layout)->*mut u8 { NA.with(|n|n.set(n.get()+1)); unsafe{System.alloc(l)} }
  unsafe fn dealloc(&self,p:*mut u8,l:Layout) { unsafe{System.dealloc(p,l)} }
  unsafe fn realloc(&self,p:*mut u8,l:Layout,s:usize)->*mut u8 { NA.with(|n|n.set(n.get()+1)); unsafe{System.realloc(p,l,s)} }
  unsafe fn alloc_zeroed(&self,l:Layout)->*mut u8 { NA.with(|n|n.set(n.get()+1)); unsafe{System.alloc_zeroed(l)} }
}
#[global_allocator] static G: Cnt = Cnt;
#[derive(Clone,Copy,PartialEq,PartialOrd)] struct BrA;
fn na()->usize { NA.with(|n|n.get()) }
/// run f once, counting its allocations; record both the count and what it produced
fn mq<Q: Reflect>(id:&str,key:&str,f: impl FnOnce()->Q) {
  match guard(|| { let a=na(); let r=black_box(f()); (na()-a, r) }) { Ok((n,v)) => ev(&[id,key,"ok",&show(&v),&n.to_string()]), Err(m) => ev(&[id,key,"panic","",""]) } }
fn mv<T: Bits>(id:&str,key:&str,f: impl FnOnce()->T) {
  match guard(|| { let a=na(); let r=black_box(f()); (na()-a, r) }) { Ok((n,v)) => ev(&[id,key,"ok",&v.bits(),&n.to_string()]), Err(m) => ev(&[id,key,"panic","",""]) } }
fn sz<Q: Reflect>(id:&str) where Q::T: 'static { let f=|x:usize|x.to_string();
  ev(&[id,"size","ok",&[size_of::<Q>(),align_of::<Q>(),size_of::<[Q;3]>(),size_of::<(u8,Q)>(),needs_drop::<Q>() as usize].map(f).join(","),
       &[size_of::<Q::T>(),align_of::<Q::T>(),size_of::<[Q::T;3]>(),size_of::<(u8,Q::T)>(),0].map(f).join(",")]) }
"""
CULIT = "#[culit::culit(whippyunits::default_declarators::literals)]"
CONFIGS = [("default", None, True), ("core", [], False), ("alloc", ["alloc"], False), ("serde", ["serde"], False), ("std", ["std"], False)]
CORE = [("W01", 42), ("W02", 160), ("W04", 60), ("W05", 40), ("W06", 120), ("W10", 40), ("W11", 90), ("W16", 30)]
DEPS = 'culit = "0.6"\nserde_json = "1"\nserde = { version = "1", features = ["derive"] }\n'


def build(chk):
    r = chk.rng
    sps = [s for s in un.spellings(names=True) if un.macro_ok(s.text) and s.u.name != "lumen"]
    out = []

    def add(body, meta, items="", attr=""):
        out.append(Case(f"a{len(out)}", body, meta, items=items, attr=attr))
    out.append(Case("control", "mv(id,\"box\",||{ let b=black_box(Box::new(5i32)); *b }); mv(id,\"vec\",||{ let mut v=vec![1u8]; v.reserve(1000); v.len() });", None))
    for t in gen.NUMT:
        for br in ("()", "BrA"):
            for _ in range(2 if not chk.thorough else 12):
                a, d = gen.rscale(r, 6), gen.rdim(r, 4)
                b, d2 = gen.rscale(r, 6), gen.rdim(r, 4)
                A, B = un.qtype(a, d, t, br), un.qtype(b, d2, t, br)
                x, y = ("6.5", "2.25") if t in un.FLOATS else ("100", "7")
                x, y = x + t, y + t
                b_ = f"let a=<{A}>::new(black_box({x})); let c=<{A}>::new(black_box({y})); let e=<{B}>::new(black_box({y}));\n sz::<{A}>(id); sz::<{B}>(id);\n"
                b_ += f" mq(id,\"new\",||<{A}>::new(black_box({x})));\n"
                for op in ("+", "-", "%"):
                    b_ += f" mq(id,\"{op}\",||a.clone(){op}c.clone());\n mq(id,\"{op}=\",||{{ let mut z=a.clone(); z{op}=c.clone(); z }});\n"
                for op in ("*", "/"):
                    z = y if op == "/" else ("1" + t if t not in un.FLOATS else y)
                    b_ += f" mq(id,\"Q{op}Q\",||<{A}>::new({x}){op}<{B}>::new({z}));\n mq(id,\"Q{op}T\",||a.clone(){op}({z})); mq(id,\"{op}=T\",||{{ let mut w=a.clone(); w{op}={z}; w }});\n"
                    b_ += f" mq(id,\"T{op}Q\",||({z}){op}<{A}>::new({x}));\n"
                if t in gen.SIGNED:
                    b_ += " mq(id,\"neg\",||-a.clone());\n"
                b_ += " mv(id,\"==\",||a==c); mv(id,\"<\",||a<c); mv(id,\">=\",||a>=c); mv(id,\"cmp\",||a.partial_cmp(&c)==Some(std::cmp::Ordering::Less));\n mq(id,\"clone\",||a.clone());\n"
                add(b_, ("ops", t, br))
                # rescale
                s2 = tuple(p + q for p, q in zip(a, r.choice([(3, 0, 3, 0), (-1, 0, 0, 0), (2, 1, 1, 0), (0, 0, 0, 0), (0, -1, 0, 0)])))
                C = un.qtype(s2, d, t, br)
                add(f" mq(id,\"rescale\",||{{ let z: {C} = rescale_{t}(<{A}>::new(black_box(3 as {t}))); z }});", ("rescale", t, br))
                # erasure of dimensionless and angles
                if br == "()":
                    for dd in ((0,) * 8, (0,) * 7 + (r.choice([1, -1, 2]),)):
                        s = r.choice([(0, 0, 0, 0), (1, 0, 0, 0), (3, 0, 3, 0), (2, 1, 1, 0)])
                        add(f" mv(id,\"into\",||{{ let z: {t} = <{un.qtype(s, dd, t)}>::new(black_box(3 as {t})).into(); z }});", ("erase", t))
                        if dd[7] == 0:
                            for t2 in ("f64", "i32"):
                                add(f" mv(id,\"into {t2}\",||{{ let z: {t2} = <{un.qtype(s, dd, t)}>::new(black_box(3 as {t})).into(); z }});", ("erase", t, t2))
    # declarations and readings through every form
    plain = [s for s in sps if s.p == 0]
    for s in plain + r.sample(sps, 60 if not chk.thorough else 600):
        x = s.text
        b_ = f" mq(id,\"quantity!\",||quantity!(black_box(2.5), {x})); mq(id,\"quantity! f32\",||quantity!(black_box(2.5f32), {x}, f32, BrA)); mq(id,\"quantity! i64\",||quantity!(black_box(25i64), {x}, i64));\n"
        b_ += f" mv(id,\"value!\",||value!(quantity!(black_box(2.5), {x}), {x}));\n"
        if s.u.storage and not s.u.affine:
            b_ += f" mq(id,\"rescale!\",||rescale!(quantity!(black_box(2.5), {x}), {x}));\n sz::<unit!({x})>(id); sz::<unit!({x}, i16, BrA)>(id);\n"
        pn = {e: n for n, _, e in un.PREFIXES}.get(s.p, "")
        b_ += f" mq(id,\"method\",||black_box(2.5f64).{pn}{s.u.plural}());\n"
        add(b_, ("forms", x))
        if x[0] not in "eE" and s.kind == "symbol":
            add(f" mq(id,\"literal\",||2.5{x});", ("literal", x), attr=CULIT)
    return out


FREE = r"""#![no_std]
#![no_main]
use whippyunits::{quantity, value, unit, rescale}; use whippyunits::default_declarators::*; use whippyunits::dimension_traits::define_generic_dimension;
unsafe extern "C" { fn printf(f: *const u8, ...) -> i32; fn abort() -> !; }
#[panic_handler] fn on_panic(_: &core::panic::PanicInfo) -> ! { unsafe { abort() } }
define_generic_dimension!(Speed, Length / Time);
fn speed<S: Speed>(s: S) -> S { s }
#[unsafe(no_mangle)] pub extern "C" fn main(_n: i32, _a: *const *const u8) -> i32 {
    let v = speed(quantity!(90.0, km) / quantity!(1.0, h));
    let a: f64 = value!(v, m / s);
    let b: unit!(mm, i64) = whippyunits::api::rescale_i64(quantity!(3, m, i64));
    let c: f64 = (90.0.degrees()).into();
    let d: f64 = value!(rescale!(2.0.meters(), mm) + 1.0.millimeters(), mm);
    unsafe { printf(c"%.17g %lld %.17g %.17g\n".as_ptr() as _, a, b.unsafe_value, c, d); }
    0
}
"""


NOSTD = """#![no_std]
#![allow(warnings)]
use whippyunits::quantity::*; use whippyunits::api::*; use whippyunits::{unit,quantity,value,rescale,define_unit_declarators};
use whippyunits::default_declarators::*; use whippyunits::dimension_traits::define_generic_dimension;
define_unit_declarators!(ns1, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);
define_unit_declarators!(ns2, Mars);
"""


def nostd_library(chk):
    """macro expansions inside a #![no_std] library crate must not need std or alloc (nothing is linked here)"""
    r = chk.rng
    sps = [s for s in un.spellings(names=True) if un.macro_ok(s.text) and s.u.name != "lumen"]
    fns = []
    for s in [s for s in sps if s.p == 0] + r.sample(sps, 80 if not chk.thorough else 800):
        x = s.text
        pn = {e: n for n, _, e in un.PREFIXES}.get(s.p, "")
        fns.append(("quantity!", f"let _ = quantity!(2.5, {x});"))
        fns.append(("value!", f"let _: f64 = value!(quantity!(2.5, {x}), {x});"))
        fns.append(("quantity! i32", f"let _ = quantity!(2i32, {x}, i32);"))
        fns.append(("method", f"let _ = 2.5f64.{pn}{s.u.plural}();"))
        if s.u.storage and not s.u.affine:
            fns.append(("unit!", f"let _: unit!({x}) = rescale!(quantity!(2.5, {x}), {x});"))
        if s.kind == "symbol" and x[0] not in "eE":
            fns.append(("literal", f"let _ = 2.5{x};"))
        if s.p == 0 and not s.u.affine and s.kind == "symbol":
            fns.append(("local quantity!", f"use ns1::*; let _ = quantity!(2.5, {x});"))
            fns.append(("branded quantity!", f"use ns2::*; let _ = quantity!(2.5, {x});"))
    for a, b in (("Length / Time", "m / s"), ("Mass * Length^2 / Time^2", "J"), ("1 / Time", "Hz"), ("L2", "m^2")):
        fns.append(("define_generic_dimension!", f"define_generic_dimension!(D, {a}); fn f<Q: D>(q: Q) -> Q {{ q }} let _ = f(quantity!(1.0, {b}));"))
    for t in gen.NUMT:
        fns.append(("erasure", f"let _: {t} = (quantity!({un.lit(t, 4)}, m, {t}) / quantity!({un.lit(t, 2)}, m, {t})).into();"))
        fns.append(("arithmetic", f"let a = quantity!({un.lit(t, 4)}, m, {t}); let mut b = a.clone() * a.clone() / quantity!({un.lit(t, 2)}, s, {t}); b += b.clone(); let _ = b.clone() < b % b.clone();"))
        fns.append(("rescale", f"let _: unit!(mm, {t}) = rescale_{t}(quantity!({un.lit(t, 0)}, m, {t}));"))

    def lib(std):
        head = NOSTD if not std else NOSTD.replace("#![no_std]\n", "\n")
        body, where = head, {}
        for i, (form, code) in enumerate(fns):
            where[body.count("\n") + 2] = i
            body += (CULIT if form == "literal" else "") + "\n" + f"pub fn f{i}() {{ {code} }}\n"
        p = Project("W18-nostd" + ("s" if std else ""), features=["std", "serde"] if std else [], default_features=False, use_probe=False, deps='culit = "0.6"\n')
        p.write_lib(body)
        r = p.cargo(["build", "--offline", "--lib", "--message-format=json"])
        bad, other = {}, []
        for l in r.stdout.decode("utf-8", "replace").splitlines():
            m = json.loads(l) if l.startswith("{") else {"reason": ""}
            if m["reason"] == "compiler-message" and m["message"]["level"] == "error":
                hit = {where[n] for n in common._lines(m["message"], "src/lib.rs") if n in where}
                for i in hit:
                    bad.setdefault(i, m["message"]["message"])
                if not hit and "aborting" not in m["message"]["message"]:
                    other.append(m["message"].get("rendered") or m["message"]["message"])
        if r.returncode and not bad and not other:
            raise Inconclusive("no_std library: " + r.stderr.decode("utf-8", "replace")[-1500:])
        return bad, other
    bs, os_ = lib(True)
    bn, on = lib(False)
    chk.count("no_std_library_functions", len(fns) - len(bs))
    for i, (form, code) in enumerate(fns):
        if i in bs:
            continue
        chk.saw(("no_std library", form, code))
        if i in bn:
            chk.violate(f"no_std:{form}", f"in a no_std library `{code}` is rejected: {bn[i]}", {"code": code})
    if on and not os_:
        chk.violate("no_std:build", f"a no_std library using the crate does not build: {on[0][:500]}")
    if len(bs) > len(fns) // 5 or os_:
        raise Inconclusive(f"no_std library reference does not build: {len(bs)} {os_[:1]} {list(bs.items())[:3]}")


def freestanding(chk, name):
    """a program without std, without an allocator: does it link, and does it compute the right values?"""
    p = Project("W18-" + name, features=[], default_features=False, use_probe=False, profile='\n[profile.dev]\npanic = "abort"\ndebug = 0\nopt-level = 0\n')
    d = os.path.join(p.dir, "src", "bin")
    open(os.path.join(d, "free.rs"), "w").write(FREE)
    with open(os.path.join(p.dir, "build.rs"), "w") as f:
        f.write('fn main() { println!("cargo:rustc-link-arg=-lc"); }\n')
    r = p.cargo(["build", "--offline", "--bins", "--message-format=json"])
    errs, exe = [], None
    for l in r.stdout.decode("utf-8", "replace").splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m["reason"] == "compiler-artifact" and m.get("executable"):
                exe = m["executable"]
            if m["reason"] == "compiler-message" and m["message"]["level"] == "error":
                errs.append(m["message"])
    chk.saw(("freestanding", name))
    if exe and r.returncode == 0:
        out = subprocess.run([exe], capture_output=True, text=True, timeout=30)
        w = out.stdout.split()
        want = [25.0, 3000.0, 1.5707963267948966, 2001.0]
        if out.returncode or len(w) != 4 or any(abs(float(x) - y) > 1e-12 * y for x, y in zip(w, want)):
            chk.violate("freestanding:values", f"the freestanding program printed {out.stdout!r} (rc {out.returncode})")
        chk.count("freestanding_ran")
        return
    sig, what = "freestanding:build", (errs[0].get("rendered") if errs else r.stderr.decode("utf-8", "replace"))[-600:]
    for m in errs:
        t = m.get("rendered") or m["message"]
        if "panic_impl" in t and "duplicate lang item" in t:
            via = t.split("which `")[1].split("`")[0] if "which `" in t else "?"
            sig, what = f"freestanding:std-linked-by:{via}", t.strip()[:400]
        elif "no global memory allocator" in t:
            sig, what = "freestanding:needs-allocator", t.strip()[:400]
    chk.violate(sig, "a no_std program without an allocator does not link: " + " ".join(what.split()))


def run(chk):
    chk.rule = ("(operation or declaration form, storage type, brand, unit) in five feature configurations: heap allocations counted during the operation, size/alignment/array/tuple layout/"
                "needs_drop against the bare number, and value logs of sampled workloads compared with the default configuration; distinct by (configuration, case, event)")
    chk.assumptions = ["allocations are counted on the calling thread through the global allocator; operations that panic are not counted",
                       "a freestanding program is linked on the host target: std and an allocator are absent only if nothing links them"]
    own = build(chk)
    m = 1 if not chk.thorough else 8
    sets = [("own", PRE, own)]
    for pid, n in CORE:
        sets += sample(chk, pid, n * m, "W18")
    serde = []
    for pid, n in (("W09", 60), ("W14", 40), ("W07", 60)):
        serde += sample(chk, pid, n * m, "W18")
    base = {}
    for name, feats, dflt in CONFIGS:
        p = Project("W18", features=feats, default_features=dflt, deps=DEPS)
        use = sets + (serde if dflt or feats and "serde" in feats else [])
        for bn, pre, cs in use:
            h = max(1, len(cs) // 60)
            for j in range(h):
                p.add_bin(f"{bn}_{j}", cs[j::h], pre)
        ids = {c.id for _, _, cs in use for c in cs}
        body = {c.id: c for _, _, cs in use for c in cs}
        try:
            p.build(max_rounds=8)
        except NoBuild as x:
            if dflt:
                raise
            chk.violate(f"{name}:does-not-build", f"the library or a program using it does not build in the {name} configuration, but does in the default one: {str(x)[:700]}")
            continue
        chk.log(f"{name}: {len(ids)} programs built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
        for cid, ms in p.rejected.items():
            if dflt:
                chk.count("rejected_in_default")
                continue
            if cid in base and base[cid] is not None:
                chk.violate(f"{name}:rejected", f"{name}: a program the default configuration accepts is rejected: {ms[0][1]} in {body[cid].body[:300]}", {"id": cid})
        obs = {}
        for e in p.run(timeout=120):
            k, rest = (e[0], e[1]), tuple(e[2:])
            own_ev = e[0] == "control" or e[0][0] == "a"
            if own_ev:
                kind, pay, n = rest[0], rest[1], rest[2]
                if e[1] == "size":
                    chk.saw((name, *k)); chk.count("layouts")
                    if pay != n:
                        chk.violate(f"{name}:layout", f"{name}: size,align,array,tuple,needs_drop of the quantity {pay}, of its number {n}: {body[e[0]].body[:200]}", {"id": e[0]})
                elif kind == "ok":
                    chk.saw((name, *k), sample={"config": name, "op": e[1], "what": str(body[e[0]].meta), "result": pay, "allocations": n} if chk.rng.random() < .001 else None)
                    chk.count("operations_counted")
                    if e[0] == "control":
                        if int(n) < 1:
                            raise Inconclusive("the counting allocator does not count")
                        chk.count("control_allocations", int(n))
                    elif n != "0":
                        chk.violate(f"{name}:allocates:{e[1]}", f"{name}: {e[1]} on {body[e[0]].meta} performed {n} heap allocations", {"id": e[0], "body": body[e[0]].body})
                obs.setdefault(k, []).append((kind, pay))
            else:
                obs.setdefault(k, []).append(("panic",) if rest[0] == "panic" else rest)
        if dflt:
            base = {cid: (None if cid in p.rejected else {}) for cid in ids}
            ref = obs
            continue
        n = 0
        for k in sorted(set(obs) | {k for k in ref if k[0] in ids and k[0] not in p.rejected}):
            if k[0] in p.crashed:
                continue
            n += 1
            if obs.get(k) != ref.get(k):
                i = next((i for i, (x, y) in enumerate(zip(obs.get(k) or [], ref.get(k) or [])) if x != y), 0)
                chk.violate(f"{name}:value:{k[0][:3]}:{k[1]}", f"{k}: {name} gives {(obs.get(k) or ['nothing'])[i]}, default gives {(ref.get(k) or ['nothing'])[i]} in {body[k[0]].body[:250]}", {"id": k[0]})
        chk.saw(n=n)
        chk.count(f"events_compared_{name}", n)
    nostd_library(chk)
    chk.log("no_std library checked")
    freestanding(chk, "free")
    return chk.finish(min_events=5000)
