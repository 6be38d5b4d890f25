"""W17: the generated workloads of the other properties are built by both back ends (stable polyfill;
nightly with generic_const_exprs) and the two event logs are compared event by event."""
import importlib, os, random, shutil
from concurrent.futures import ThreadPoolExecutor
import common
from common import Project, Case, Check, Inconclusive

MODS = ["W01", "W02", "W04", "W05", "W06", "W07", "W08", "W09", "W10", "W11", "W12", "W14", "W15", "W16"]
# cases taken from each workload (quick, thorough)
TAKE = {"W01": (110, 900), "W02": (420, 4000), "W04": (90, 900), "W05": (60, 600), "W06": (220, 1500), "W07": (110, 900), "W08": (220, 1500),
        "W09": (120, 700), "W10": (60, 500), "W11": (160, 900), "W12": (80, 600), "W14": (50, 400), "W15": (260, 2000), "W16": (60, 500)}
DEPS = ('culit = "0.6"\nserde_json = "1"\nserde = { version = "1", features = ["derive"] }\n')


class Captured(Exception):
    pass


def capture(pid, chk, who="W17"):
    """the project a property's own check would build, with all its cases"""
    mod = importlib.import_module(pid.lower())

    class Catch:
        def __init__(self, name, prelude="", deps="", crate_attr="", **kw):
            self.prelude, self.bins, self.rejected, self.build_s = prelude, {}, {}, 0
            self.dir = os.path.join(common.WORKROOT, who + "-" + pid)
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
            assert not crate_attr
        add_bin, spread = Project.add_bin, Project.spread

        def build(self, *a, **k):
            raise Captured(self)
    inner = Check(pid)
    inner.seed, inner.thorough = chk.seed, False
    inner.rng = random.Random(f"{who}/{pid}/{chk.seed}/{chk.tier}")
    inner.log = lambda *a: None
    real = mod.Project
    mod.Project = Catch
    try:
        mod.run(inner)
    except Captured as c:
        return c.args[0]
    finally:
        mod.Project = real
    raise Inconclusive(f"workload {pid} was not generated")


def sample(chk, pid, take, who):
    """about `take` of a workload's cases, as [(bin name, bin prelude, cases)]; ids are made unique across workloads"""
    c = capture(pid, chk, who)
    frac = min(1.0, take / sum(len(b["cases"]) for b in c.bins.values()))
    per = {}
    for b in c.bins.values():
        k = max(1, round(len(b["cases"]) * frac))
        for x in chk.rng.sample(b["cases"], min(k, len(b["cases"]))):
            x.id = pid.lower() + x.id
            per.setdefault(b["prelude"] or "", []).append(x)
    chk.count("programs_" + pid, sum(len(x) for x in per.values()))
    return [(f"{pid.lower()}_{i}", c.prelude + "\n" + pre, cs) for i, (pre, cs) in enumerate(per.items())]


def norm(payload):
    """NaN payloads and signs are left unspecified by the language"""
    out = []
    for f in payload.split(";"):
        if len(f) in (8, 16):
            try:
                x = int(f, 16)
            except ValueError:
                out.append(f); continue
            m, e = ((1 << 23) - 1, 0xff << 23) if len(f) == 8 else ((1 << 52) - 1, 0x7ff << 52)
            if x & e == e and x & m:
                f = "NaN"
        out.append(f)
    return ";".join(out)


def run(chk):
    chk.rule = ("cases drawn from the generated workloads of W01, W02, W04-W12, W14-W16; each is one program built by both back ends, its events "
                "(unit type, storage type, brand, stored bits, text, panic) compared pairwise; distinct by (workload, case, event)")
    chk.assumptions = ["panic messages and NaN payloads are not compared", "programs only one back end accepts are counted, not judged",
                       "the two back ends are different compiler versions: the shared language semantics is assumed"]
    r = chk.rng
    tier = 1 if chk.thorough else 0
    binsets = []
    for pid in MODS:
        binsets += sample(chk, pid, TAKE[pid][tier], "W17")
    allids = {x.id for _, _, cs in binsets for x in cs}

    def mk(tc, feats, tag):
        p = Project("W17-" + tc, tc=tc, tag=tag, features=feats, deps=DEPS)
        for name, pre, cs in binsets:
            h = max(1, len(cs) // 140)
            for j in range(h):
                p.add_bin(f"{name}_{j}", cs[j::h], pre)
        return p
    A, B = mk("stable", None, ""), mk("nightly", ["cge"], "cge")
    for p in (A, B):
        p.build(max_rounds=8)
        chk.log(f"{p.tc}: built in {p.build_s:.1f}s, rejected {len(p.rejected)}")
    ea, eb = A.run(timeout=120), B.run(timeout=120)
    both = allids - set(A.rejected) - set(B.rejected)
    chk.count("accepted_by_both", len(both))
    chk.count("accepted_only_by_stable", len(set(B.rejected) - set(A.rejected)))
    chk.count("accepted_only_by_cge", len(set(A.rejected) - set(B.rejected)))
    chk.count("accepted_by_neither", len(set(A.rejected) & set(B.rejected)))

    def table(ev):
        t = {}
        for e in ev:
            if e[0] in both:
                kind, pay = e[2], e[3] if len(e) > 3 else ""
                t.setdefault((e[0], e[1]), []).append((kind, "" if kind == "panic" else norm(pay), tuple(e[4:])))
        return t
    ta, tb = table(ea), table(eb)
    dead = set(A.crashed) | set(B.crashed)
    for cid in sorted(dead & both):
        if (cid in A.crashed) != (cid in B.crashed):
            chk.violate(f"{cid[:3]}:crash", f"{cid}: the process {'died' if cid in A.crashed else 'survived'} under the stable back end only or the other way round "
                        f"({A.crashed.get(cid)} / {B.crashed.get(cid)})", cid)
    bodies = {x.id: x for _, _, cs in binsets for x in cs}
    for k in sorted(set(ta) | set(tb)):
        if k[0] in dead:
            continue
        a, b = ta.get(k), tb.get(k)
        chk.saw(k, n=max(len(a or ()), len(b or ())), sample={"event": k, "both": a[:1]} if a == b and r.random() < .002 else None)
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a or [], b or [])) if x != y), 0)
            chk.violate(f"{k[0][:3].upper()}:{k[1]}", f"{k}: stable {(a or ['nothing'])[i]}, generic const exprs {(b or ['nothing'])[i]} in {bodies[k[0]].body[:300]}", {"id": k[0], "body": bodies[k[0]].body})
    return chk.finish(min_events=2000)
