"""Shared driver: seeds, building generated programs against /repo, running them,
recording evidence, violations, replays and known findings.

Verdicts are three valued.  0 = held on everything observed, 1 = violation (with a
VIOLATION line), 2 = inconclusive / harness error (tool missing, /repo does not build,
watchdog fired, too few events observed)."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKROOT = os.environ.get("VERIF_WORK", os.path.join(ROOT, "work"))
TARGETROOT = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "target"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
KNOWN = os.path.join(ROOT, "known_findings.json")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Inconclusive(Exception):
    pass


class NoBuild(Inconclusive):
    """the code under test (or something not attributable to one generated case) does not build"""
    pass


def sh(s):
    return hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest()[:12]


class Check:
    def __init__(self, pid, argv=()):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.replay = None
        args = list(argv)
        while args:
            a = args.pop(0)
            if a == "--tier":
                self.tier = args.pop(0)
            elif a == "--seed":
                self.seed = int(args.pop(0))
            elif a == "--replay":
                with open(args.pop(0)) as f:
                    self.replay = json.load(f)
                self.seed = self.replay["seed"]
                self.tier = self.replay["tier"]
            else:
                raise SystemExit("unknown argument " + a)
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}/{self.seed}/{self.tier}")
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.notes = []
        self.rule = ""
        with open(KNOWN) as f:
            self.known = {k["signature"]: k for k in json.load(f)["findings"]
                          if k["property"] == pid}
        self._groups = {}

    # -- observation ------------------------------------------------------
    def saw(self, key=None, n=1, sample=None):
        """Count an evaluated observation; key identifies a distinct non-trivial case."""
        self.evaluations += n
        if key is not None:
            self.distinct.add(key if isinstance(key, str) else repr(key))
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def violate(self, signature, what, case=None):
        """signature: identifies the specific input / call site that fails."""
        if signature in self.known:
            self.known_hits.setdefault(signature, what)
            return
        self.violations.append({"signature": signature, "what": what, "case": case})

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    # -- verdict ----------------------------------------------------------
    def finish(self, level="exploration", min_events=1):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples,
        }
        cov.update(self.coverage)
        if self.known_hits:
            cov["known_findings_observed"] = len(self.known_hits)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions, "violations": len(self.violations),
        }
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for sig, k in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {self.known[sig]['what']}")
        if self.violations:
            rp = os.path.join(EVIDENCE, "replay")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, f"{self.pid}-{self.seed}-{self.tier}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": self.violations[:200]}, f, indent=1,
                          ensure_ascii=False, default=str)
            for v in self.violations[:15]:
                print(f"  {v['signature']}: {v['what']}")
            if len(self.violations) > 15:
                print(f"  ... {len(self.violations)} violations in all")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            return 1
        if self.evaluations < min_events:
            print(f"INCONCLUSIVE {self.pid}: only {self.evaluations} events observed "
                  f"(need {min_events})")
            return 2
        print(f"OK property={self.pid} tier={self.tier} seed={self.seed} "
              f"evaluations={self.evaluations} distinct={len(self.distinct)} "
              f"wall={time.time()-self.t0:.1f}s")
        return 0


# -------------------------------------------------------------------------
# building
# -------------------------------------------------------------------------
def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(base, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_guarded = set()


def target_dir(tc, tag=""):
    d = os.path.join(TARGETROOT, tc + tag)
    if d not in _guarded:
        _guarded.add(d)
        os.makedirs(d, exist_ok=True)
        stamp = os.path.join(d, ".repo-hash")
        hv = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != hv:
            # never trust mtimes for the code under test: forget every artefact of it
            for base, dirs, files in os.walk(d):
                if os.path.basename(base) == ".fingerprint":
                    for x in list(dirs):
                        if x.startswith(("whippyunits", "lsp-proxy", "rustc-pretty", "wp-", "probe")):
                            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
                    dirs[:] = []
            with open(stamp, "w") as f:
                f.write(hv)
    return d


def cargo_env(tc, tag=""):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.update({
        "RUSTUP_TOOLCHAIN": tc, "CARGO_NET_OFFLINE": "true",
        "CARGO_TARGET_DIR": target_dir(tc, tag), "CARGO_INCREMENTAL": "0",
        "CARGO_TERM_COLOR": "never",
    })
    return e


PROFILE = """
[profile.dev]
debug = 0
opt-level = 0
overflow-checks = true
debug-assertions = true
"""


class Case:
    """One generated program fragment: body runs inside fn, may use `id`."""
    __slots__ = ("id", "body", "items", "meta", "line", "attr")

    def __init__(self, id, body, meta=None, items="", attr=""):
        self.id, self.body, self.meta, self.items, self.attr = id, body, meta, items, attr


class Project:
    """A generated crate with several binaries built from cases."""

    def __init__(self, name, features=None, default_features=True, tc="stable", tag="",
                 deps="", prelude="", crate_attr="", use_probe=True, repo_dep=True, profile=PROFILE,
                 probe_features=(), wp_extra_deps="", core_dep=True):
        self.name, self.tc, self.tag = name, tc, tag
        self.dir = os.path.join(WORKROOT, name)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        self.prelude, self.crate_attr = prelude, crate_attr
        feat = ""
        if features is not None:
            feat = ", features = [" + ",".join(f'"{f}"' for f in features) + "]"
        df = "" if default_features else ", default-features = false"
        pf = ""
        if probe_features:
            pf = ", features = [" + ",".join(f'"{f}"' for f in probe_features) + "]"
        toml = f'[package]\nname = "wp-{name.lower()}"\nversion = "0.0.0"\nedition = "2024"\n'
        toml += "\n[workspace]\nexclude = []\n\n[dependencies]\n"
        if repo_dep:
            toml += f'whippyunits = {{ path = "{REPO}"{df}{feat} }}\n'
            if core_dep:
                toml += f'whippyunits-core = {{ path = "{REPO}/whippyunits-core" }}\n'
        if use_probe:
            probe = self._probe_copy(feat, df)
            toml += f'probe = {{ path = "{probe}"{pf} }}\n'
        toml += deps + profile
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(toml)
        shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(self.dir, "Cargo.lock"))
        with open(os.path.join(self.dir, "src", "lib.rs"), "w") as f:
            f.write("")
        self.bins = {}
        self.rejected = {}     # case id -> [messages]
        self.build_s = 0.0

    def _probe_copy(self, feat, df):
        # the probe crate is instantiated per REPO path (its Cargo.toml names the path)
        d = os.path.join(self.dir, "probe")
        shutil.copytree(os.path.join(ROOT, "probe"), d)
        p = os.path.join(d, "Cargo.toml")
        t = open(p).read().replace("@REPO@", REPO).replace("@FEAT@", df + feat)
        open(p, "w").write(t)
        return d

    def write_lib(self, text):
        with open(os.path.join(self.dir, "src", "lib.rs"), "w") as f:
            f.write(text)

    def add_bin(self, bname, cases, prelude=None, main_tail=""):
        self.bins[bname] = {"cases": list(cases), "prelude": prelude, "tail": main_tail}

    def spread(self, cases, nbins=None, stem="b"):
        cases = list(cases)
        nbins = nbins or min(JOBS, max(1, len(cases) // 4))
        for i in range(nbins):
            self.add_bin(f"{stem}{i}", cases[i::nbins])

    def _emit(self, bname):
        b = self.bins[bname]
        out = [self.crate_attr, "#![allow(warnings)]", self.prelude]
        if b["prelude"]:
            out.append(b["prelude"])
        text = "\n".join(x for x in out if x) + "\n"
        parts = [text]
        line = text.count("\n") + 1
        spans = []
        live = [c for c in b["cases"] if c.id not in self.rejected]
        for c in live:
            t = f"{c.items}\n{c.attr}\nfn {c.id}() {{ let id = \"{c.id}\";\n{c.body}\n}}\n"
            n = t.count("\n")
            spans.append((line, line + n - 1, c.id))
            line += n
            parts.append(t)
        parts.append("fn main() { probe::init();\n" +
                     "".join(f"  probe::case(\"{c.id}\", {c.id});\n" for c in live) +
                     b["tail"] + "  probe::done();\n}\n")
        p = os.path.join(self.dir, "src", "bin", bname + ".rs")
        with open(p, "w") as f:
            f.write("".join(parts))
        b["spans"] = spans

    def cargo(self, args, timeout=850):
        cmd = ["cargo"] + args
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.dir, env=cargo_env(self.tc, self.tag),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive(f"{' '.join(cmd)} exceeded {timeout}s")
        self.build_s += time.time() - t
        return r

    def build(self, allow_reject=True, max_rounds=4, timeout=850, extra=()):
        """Build all bins; cases whose own code is rejected by rustc go to self.rejected."""
        for b in self.bins:
            self._emit(b)
        for rnd in range(max_rounds):
            args = ["build", "--offline", "--bins", "--keep-going", "--message-format=json",
                    "-j", str(JOBS)] + list(extra)
            r = self.cargo(args, timeout)
            bad, foreign, adrift, built = {}, [], [], {}
            for ln in r.stdout.decode("utf-8", "replace").splitlines():
                if not ln.startswith("{"):
                    continue
                m = json.loads(ln)
                if m["reason"] == "compiler-artifact" and m.get("executable"):
                    built[m["target"]["name"]] = m["executable"]
                if m["reason"] != "compiler-message" or m["message"]["level"] != "error" :
                    continue
                tn = m["target"]["name"]
                if tn not in self.bins:
                    foreign.append(m["message"].get("rendered") or m["message"]["message"])
                    continue
                ids = set()
                for ln_no in _lines(m["message"], f"src/bin/{tn}.rs"):
                    for (a, z, cid) in self.bins[tn]["spans"]:
                        if a <= ln_no <= z:
                            ids.add(cid)
                txt = m["message"].get("rendered") or m["message"]["message"]
                code = (m["message"].get("code") or {}).get("code")
                if ids:
                    for cid in ids:
                        bad.setdefault(cid, []).append((code, m["message"]["message"], txt))
                elif "aborting due to" not in m["message"]["message"]:
                    adrift.append(txt)    # e.g. an error placed at the definition of a macro a case uses
            self.built = built
            if adrift and not bad:
                foreign += adrift
            if foreign:
                raise NoBuild("code under test or harness does not build:\n" + "\n".join(foreign)[:6000])
            if r.returncode == 0:
                return True
            if not bad:
                raise Inconclusive("cargo failed:\n" + r.stderr.decode("utf-8", "replace")[-6000:])
            self.rejected.update(bad)
            if not allow_reject:
                return False
            for b in self.bins:
                self._emit(b)
        raise Inconclusive(f"{len(self.rejected)} cases rejected, still not building")

    def run(self, timeout=60, args=(), env=None, only=None, max_crashes=6):
        """Run all bins in parallel; returns list of event tuples (fields of each log line).

        A case that kills its process (abort, stack overflow) is recorded in self.crashed and the
        remaining cases are run without it.  A case during which the watchdog fires is re-run alone
        with a far larger allowance before it is recorded as hanging."""
        def launch(exe, e, tmo):
            try:
                r = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=tmo, env=e, cwd=self.dir)
                return r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as ex:
                return None, ex.stdout or b"", b"timeout"

        def parse(out):
            lines = out.decode("utf-8", "replace").split("\n")
            evs, last, done = [], None, False
            for l in lines:
                if l == "@done":
                    done = True
                elif l:
                    f = [unesc(x) for x in l.split("\t")]
                    if f[0] == "@start":
                        last = f[1]
                    else:
                        evs.append(tuple(f))
            return evs, last, done

        def one(item):
            name, exe = item
            e = dict(os.environ)
            e.update(env or {})
            events, crashed, n = [], {}, 0
            while True:
                rc, out, err = launch(exe, e, timeout)
                evs, last, done = parse(out)
                events += evs
                if done:
                    break
                if last is None:
                    raise Inconclusive(f"{name} produced nothing: {rc} {err[-500:]!r}")
                if rc is None:
                    e1 = dict(e); e1.pop("PROBE_AFTER", None); e1["PROBE_ONLY"] = last
                    rc1, out1, err1 = launch(exe, e1, 150)
                    evs1, _, done1 = parse(out1)
                    if done1:
                        events = [x for x in events if x[0] != last] + evs1
                    elif rc1 is None:
                        crashed[last] = "hang: no result within 150 s"
                    else:
                        crashed[last] = f"process died ({rc1}): " + err1.decode("utf-8", "replace")[-300:]
                else:
                    crashed[last] = f"process died ({rc}): " + err.decode("utf-8", "replace")[-300:]
                n += 1
                if n >= max_crashes:
                    break
                e["PROBE_AFTER"] = last
            return events, crashed
        items = [(n, self.built[n]) for n in self.bins if n in self.built and (only is None or n in only)]
        if len(items) != len([n for n in self.bins if only is None or n in only]):
            raise Inconclusive("some binaries were not built")
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, items))
        events = []
        self.crashed = {}
        for evs, cr in res:
            events += evs
            self.crashed.update(cr)
        return events


def _lines(msg, suffix):
    """all lines in the given source file that an error message's spans (or expansions) touch"""
    out = set()

    def span(s):
        while s:
            if s["file_name"].endswith(suffix):
                out.update(range(s["line_start"], s["line_end"] + 1))
            ex = s.get("expansion")
            s = ex["span"] if ex else None
    prim = [s for s in msg["spans"] if s["is_primary"]]
    for s in prim or msg["spans"]:
        span(s)
    if not out:
        for s in msg["spans"]:
            span(s)
        for c in msg.get("children", []):
            for s in c["spans"]:
                span(s)
    return out


def unesc(s):
    if "\\" not in s:
        return s
    return re.sub(r"\\(t|n|r|\\)", lambda m: {"t": "\t", "n": "\n", "r": "\r", "\\": "\\"}[m.group(1)], s)


def rs_str(s):
    """Rust string literal"""
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif 32 <= o < 127:
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    out.append('"')
    return "".join(out)


def main(mod_run, pid):
    chk = None
    try:
        chk = Check(pid, sys.argv[2:])
        rc = mod_run(chk)
    except Inconclusive as e:
        print(f"INCONCLUSIVE {pid}: {e}")
        rc = 2
    sys.exit(rc)
