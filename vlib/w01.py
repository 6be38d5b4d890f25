"""W01: shadow execution. Every operator is run on quantities and, with the same operands, on the bare
numbers; outcomes (bits, NaN-ness, panic and its message) are compared event by event."""
import common, gen, units as un
from common import Project, Case

PRE = r"""
use whippyunits::quantity::*; use probe::*; use std::fmt::Debug;
#[derive(Clone,PartialEq,PartialOrd)] struct BrA;
fn same(a:&Result<String,String>, b:&Result<String,String>)->bool { a==b }
struct Tally { n:u64, pan:u64, nan:u64, bad:u64 }
fn rec(id:&str, op:&str, a:String, b:String, bare:Result<String,String>, q:Result<String,String>, t:&mut Tally) {
    t.n+=1; if bare.is_err(){t.pan+=1} if bare.as_deref()==Ok("nan"){t.nan+=1}
    if !same(&bare,&q) { t.bad+=1; if t.bad<=3 { ev(&[id,"BAD",op,&a,&b,&format!("{:?}",bare),&format!("{:?}",q)]); } }
}
fn fin(id:&str, op:&str, t:Tally){ ev(&[id,"TALLY",op,&t.n.to_string(),&t.pan.to_string(),&t.nan.to_string(),&t.bad.to_string()]); }
fn raw<Q:Reflect>(q:Q)->String{ q.raw().bits() }
macro_rules! bin { ($id:expr,$op:expr,$vs:expr,$ws:expr,|$a:ident,$b:ident| $bare:expr, $q:expr) => {{
    let mut t=Tally{n:0,pan:0,nan:0,bad:0};
    for &$a in $vs { for &$b in $ws {
        let r1=guard(||($bare).bits()); let r2=guard(||$q);
        rec($id,$op,$a.bits(),$b.bits(),r1,r2,&mut t);
    }} fin($id,$op,t);
}}}
macro_rules! cmps { ($id:expr,$op:expr,$vs:expr,|$a:ident,$b:ident| $bare:expr, $q:expr) => {{
    let mut t=Tally{n:0,pan:0,nan:0,bad:0};
    for &$a in $vs { for &$b in $vs {
        let r1=guard(||format!("{:?}",$bare)); let r2=guard(||format!("{:?}",$q));
        rec($id,$op,$a.bits(),$b.bits(),r1,r2,&mut t);
    }} fin($id,$op,t);
}}}
macro_rules! all { ($id:expr,$A:ty,$B:ty,$T:ty,$vs:expr) => {{
    type A=$A; type B=$B; type T=$T; let vs:&[T]=$vs; let id=$id;
    bin!(id,"Q+Q",vs,vs,|a,b| a+b, raw(A::new(a)+A::new(b)));
    bin!(id,"Q-Q",vs,vs,|a,b| a-b, raw(A::new(a)-A::new(b)));
    bin!(id,"Q%Q",vs,vs,|a,b| a%b, raw(A::new(a)%A::new(b)));
    bin!(id,"Q*Q",vs,vs,|a,b| a*b, raw(A::new(a)*B::new(b)));
    bin!(id,"Q/Q",vs,vs,|a,b| a/b, raw(A::new(a)/B::new(b)));
    bin!(id,"Q*T",vs,vs,|a,b| a*b, raw(A::new(a)*b));
    bin!(id,"Q/T",vs,vs,|a,b| a/b, raw(A::new(a)/b));
    bin!(id,"Q%T",vs,vs,|a,b| a%b, raw(A::new(a)%b));
    bin!(id,"T*Q",vs,vs,|a,b| a*b, raw(a*A::new(b)));
    bin!(id,"T/Q",vs,vs,|a,b| a/b, raw(a/A::new(b)));
    bin!(id,"Q+=Q",vs,vs,|a,b| {let mut x=a;x+=b;x}, {let mut x=A::new(a);x+=A::new(b);raw(x)});
    bin!(id,"Q-=Q",vs,vs,|a,b| {let mut x=a;x-=b;x}, {let mut x=A::new(a);x-=A::new(b);raw(x)});
    bin!(id,"Q%=Q",vs,vs,|a,b| {let mut x=a;x%=b;x}, {let mut x=A::new(a);x%=A::new(b);raw(x)});
    bin!(id,"Q*=T",vs,vs,|a,b| {let mut x=a;x*=b;x}, {let mut x=A::new(a);x*=b;raw(x)});
    bin!(id,"Q/=T",vs,vs,|a,b| {let mut x=a;x/=b;x}, {let mut x=A::new(a);x/=b;raw(x)});
    bin!(id,"Q%=T",vs,vs,|a,b| {let mut x=a;x%=b;x}, {let mut x=A::new(a);x%=b;raw(x)});
    cmps!(id,"==",vs,|a,b| a==b, A::new(a)==A::new(b));
    cmps!(id,"!=",vs,|a,b| a!=b, A::new(a)!=A::new(b));
    cmps!(id,"<",vs,|a,b| a<b, A::new(a)<A::new(b));
    cmps!(id,"<=",vs,|a,b| a<=b, A::new(a)<=A::new(b));
    cmps!(id,">",vs,|a,b| a>b, A::new(a)>A::new(b));
    cmps!(id,">=",vs,|a,b| a>=b, A::new(a)>=A::new(b));
    cmps!(id,"partial_cmp",vs,|a,b| a.partial_cmp(&b), A::new(a).partial_cmp(&A::new(b)));
    cmps!(id,"clone/copy",vs,|a,b| (a.bits(),b.bits()), {let x=A::new(a);let y=x;let z=x.clone();let w=B::new(b);(raw(y).min(raw(z)),raw(w))});
}}}
macro_rules! negs { ($id:expr,$A:ty,$T:ty,$vs:expr) => {{ type A=$A; let vs:&[$T]=$vs; let id=$id;
    bin!(id,"-Q",vs,&vs[..1],|a,b| {let _=b;-a}, {let _=b; raw(-A::new(a))});
}}}
"""


def build(chk):
    r = chk.rng
    cases = []
    per = 3 if not chk.thorough else 10
    for t in gen.NUMT:
        for k in range(per):
            if k == 0:
                a, b, br = ((0, 0, 0, 0), (0,) * 8), ((0, 0, 0, 0), (0, 1, 0, 0, 0, 0, 0, 0)), "()"
            else:
                a, b = (gen.rscale(r), gen.rdim(r)), (gen.rscale(r), gen.rdim(r))
                br = r.choice(["()", "BrA"])
            vs = gen.vals(r, t, 6 if k else 10)
            if t not in un.FLOATS:
                import math
                root = math.isqrt(un.INTS[t][1])
                vs = sorted(set(vs) | {x for x in (root, root + 1, -root, -root - 1, 11, 12, 13, 14, 15, 16) if un.INTS[t][0] <= x <= un.INTS[t][1]})
            if not chk.thorough and len(vs) > 44:
                keep = [v for v in vs if abs(v) <= 3 or v in un.INTS.get(t, ()) ] if t not in un.FLOATS else vs[:20]
                rest = [v for v in vs if not any(v is x for x in keep)]
                vs = keep + r.sample(rest, 44 - len(keep))
            A, B = un.qtype(*a, t, br), un.qtype(*b, t, br)
            arr = f"&[{','.join(un.lit(t, v) for v in vs)}]"
            cid = f"c_{t}_{k}"
            body = f"all!(id,{A},{B},{t},{arr});"
            if t in gen.SIGNED:
                body += f" negs!(id,{A},{t},{arr});"
            cases.append(Case(cid, body, {"t": t, "A": A, "B": B, "n": len(vs), "vs": vs}))
    return cases


def run(chk):
    chk.rule = ("24 operators x 14 storage types x generated unit types/brands, each over all pairs of a boundary-directed value grid; quantity operation and "
                "bare operation run side by side; distinct by (operator, storage type, unit type); non-trivial = grid contains overflow/NaN/zero operands")
    chk.assumptions = ["NaN payloads are not compared (the language leaves them unspecified)", "overflow-checked build"]
    cases = build(chk)
    p = Project("W01", prelude=PRE)
    p.spread(cases, 8)
    p.build()
    ev = p.run(timeout=120)
    byid = {c.id: c for c in cases}
    seen = {c.id: set() for c in cases}
    for c in cases:
        if c.id in p.rejected:
            chk.violate(f"rejected:{c.meta['A']}", p.rejected[c.id][0][1], c.body)
    for cid, why in p.crashed.items():
        chk.violate(f"crash:{byid[cid].meta['A']}", why)
    for e in ev:
        c = byid[e[0]]
        if e[1] == "PANIC":
            chk.violate("panic:" + c.meta["A"], e[2])
        elif e[1] == "BAD":
            chk.violate(f"{e[2]} {c.meta['t']} {e[3]} {e[4]}", f"{e[2]} on {c.meta['t']} operands {e[3]}, {e[4]}: bare {e[5]} quantity {e[6]} [{c.meta['A']}]")
        elif e[1] == "TALLY":
            n, pan, nan = int(e[3]), int(e[4]), int(e[5])
            seen[c.id].add(e[2])
            chk.evaluations += n
            chk.count("panicking_operations", pan); chk.count("nan_results", nan)
            chk.distinct.add((e[2], c.meta["t"], c.meta["A"]).__repr__())
            if len(chk.samples) < 8 and (pan or nan):
                chk.samples.append({"op": e[2], "type": c.meta["A"], "pairs": n, "both_panicked": pan, "both_nan": nan})
    for c in cases:
        want = 25 if c.meta["t"] in gen.SIGNED else 24
        if c.id not in p.rejected and len(seen[c.id]) != want and c.id not in p.crashed:
            raise common.Inconclusive(f"{c.id}: only {len(seen[c.id])} operators observed")
    return chk.finish(min_events=200000)
