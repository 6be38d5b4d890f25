"""W20: what the proxy and the command-line printer show instead of raw quantity types, and that they touch nothing else."""
import decimal, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import common, gen, units as un, expr as ex, tooltext as tt, reader
from common import Project, Case, Inconclusive

DRV = r'''
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use serde_json::{json, Value};
use whippyunits_lsp_proxy::{DisplayConfig, LspProxy};
use whippyunits_pretty::rustc_pretty::RustcPrettyPrinter;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let b = |i: usize| v["cfg"][i].as_bool().unwrap();
        let cfg = DisplayConfig { verbose: b(0), unicode: b(1), include_raw: b(2) };
        let t = v["text"].as_str().unwrap().to_string();
        writeln!(out, "@{}", v["n"]).unwrap(); out.flush().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| match v["op"].as_str().unwrap() {
            "line" => RustcPrettyPrinter::with_config(cfg).process_line(&t).map_err(|e| e.to_string()),
            "text" => RustcPrettyPrinter::with_config(cfg).process_rustc_output(&t).map_err(|e| e.to_string()),
            _ => LspProxy::with_config(cfg).process_incoming(&t).map_err(|e| e.to_string()),
        }));
        let r = match r { Ok(Ok(s)) => json!({"ok": s}), Ok(Err(e)) => json!({"err": e}), Err(_) => json!({"panic": 1}) };
        writeln!(out, "{}", r).unwrap(); out.flush().unwrap();
    }
}
'''
DEPS = f'''whippyunits-lsp-proxy = {{ path = "{common.REPO}/lsp-proxy" }}
whippyunits-pretty = {{ path = "{common.REPO}/whippyunits-pretty" }}
serde_json = "1.0"
'''


def frame(body):
    b = body.encode() if isinstance(body, str) else body
    return b"Content-Length: %d\r\n\r\n" % len(b) + b


def unframe(t):
    """body of one framed message or None"""
    b = t.encode("utf-8", "surrogatepass") if isinstance(t, str) else t
    h, sep, body = b.partition(b"\r\n\r\n")
    if not sep:
        return None
    n = None
    for l in h.split(b"\r\n"):
        k, s, v = l.partition(b":")
        if not s:
            return None
        if k.lower() == b"content-length":
            n = int(v)
    return body.decode("utf-8") if n == len(body) else None


def drive(exe, jobs, chk):
    """run all jobs (dicts) through the driver in parallel processes; a process that dies or stalls loses one job only"""
    res = [None] * len(jobs)

    def part(k):
        todo = list(range(k, len(jobs), common.JOBS))
        tries = 0
        while todo:
            inp = "".join(json.dumps({**jobs[i], "n": i}) + "\n" for i in todo).encode()
            try:
                r = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired as e:
                rc, o = "no answer within 300 s", e.stdout or b""
            last, done = None, set()
            for l in o.decode("utf-8", "surrogatepass").split("\n"):
                if l.startswith("@"):
                    last = int(l[1:])
                elif l and last is not None:
                    try:
                        res[last] = json.loads(l)
                    except ValueError:
                        continue
                    done.add(last); last = None
            todo = [i for i in todo if i not in done]
            if rc == 0 and not todo:
                return
            if last is not None:
                res[last] = {"died": str(rc)}
                todo = [i for i in todo if i != last]
            tries += 1
            if tries > 5:
                return
    with ThreadPoolExecutor(common.JOBS) as p:
        list(p.map(part, range(common.JOBS)))
    return res


# ---------------------------------------------------------------------------------------------------------- messages
def hover_value(r, pool, kind):
    """(segments, [index ranges of segments inside rust code blocks] or None when there is no block)"""
    def code(n=None):
        s = tt.text(r, pool, nl=r.random() < .4, types=n, p_open=0)
        return [(x[0], x[1].replace("```", "'''").replace("---", "-")) + x[2:] if x[0] == "p" else x for x in s]

    def docs():
        s = "".join(r.choice(["\n", " ", "Some docs. ", "µs ", "`code` ", "\n\n---\n\n", "size = 8, align = 0x8\n", "see [x](http://y)\n", "# Examples\n", "T = f64 ", "Größe ", "🚀", "a > b ", "Quantity ", "Scale "])
                    for _ in range(r.randint(0, 7)))
        return [("p", s)]
    if kind == "one":
        return [("p", "```rust\n")] + code() + [("p", "\n```")] + docs()
    if kind == "decl":
        q = tt.rq(r, pool)
        return [("p", r.choice(["", "\n"]) + "```rust\n" + r.choice(["let ", "let mut ", "const ", "static ", "", "pub ", "größe: Vec<u8>, let ", "let (a, b): (u8, "]) + r.choice(["x", "größe", "my_var", "π", "変数"]) + ": "),
                ("q", tt.spell(q, r), q), ("p", r.choice(["", " = quantity!(1.0, m)", ", // µ", "\n"]) + "\n```")] + docs()
    if kind == "two":
        return [("p", "\n```rust\nmy_crate::größe\n```\n\n```rust\n")] + code() + [("p", "\n```")] + docs()
    if kind == "three":
        return [("p", "```rust\n")] + code() + [("p", "\n```\nand\n```rust\n")] + code() + [("p", "\n```\n```text\nnothing <here>\n```")] + docs()
    if kind == "tight":
        return [("p", "```rust")] + [("p", r.choice(["\n\n", "\n    ", "\n\t", "\n"]))] + code() + [("p", r.choice(["\n\n", " \n", "\n"]) + "```")] + docs()
    if kind == "unterminated":
        return [("p", "```rust\n")] + code()
    return code()      # no code block


def tokens(r, t, base):
    """a hint's label parts as rust-analyzer splits them: names carry a location, everything between is merged"""
    out = []
    for m in re.finditer(r"[A-Za-z_Θπ_ßа-яА-Я][\w]*|[^A-Za-z_Θßа-яА-Я]+", t):
        w = m.group(0)
        if re.match(r"[^\W\d]", w) and r.random() < .97:
            out.append({"value": w, "location": {"uri": "file:///a.rs", "range": {"start": {"line": base, "character": m.start()}, "end": {"line": base, "character": m.end()}}}})
        elif out and "location" not in out[-1]:
            out[-1]["value"] += w
        else:
            out.append({"value": w})
    return out


def label(r, pool, lone=False):
    """(segments, parts): a label's text; the name Quantity of a type is always a part of its own"""
    if lone:      # `let x: Quantity<..>`, mostly of a unit that has a name
        q = tt.rq(r, pool)
        if r.random() < .7:
            d = [0] * 8
            for i in r.sample(range(8), r.choice([1, 1, 2, 2, 3])):
                d[i] = r.choice([1, 1, 2, -1, -2, 3])
            k = r.choice([0, 0, 0, 3, -3, -6, 2, 9])
            q = tt.Q(tuple(d), (k, 0, k, 0), r.choice(["f64", "f64", "f32", "i32", "u8", "i64", "u64", "isize"]), q.brand)
        segs = [("p", ": "), ("q", tt.spell(q, r), q), ("p", "")]
        return segs, split(r, segs)
    segs = [("p", r.choice([": ", ": &", ": Vec<", ": (", ": Option<Box<", " -> ", ": impl Iterator<Item = ", ": Größe<"]))]
    n = r.choice([0, 1, 1, 1, 1, 2, 3])
    for i in range(n):
        if r.random() < .1:
            segs.append(("b", tt.bad(r)))
        else:
            q = tt.rq(r, pool)
            segs.append(("q", tt.spell(q, r), q))
        segs.append(("p", r.choice(["", "", ">", ", u8)", ", Error>", ">>", ", ", " + 'a"]) if i == n - 1 else r.choice([", ", ">, ", "), ("])))
    if not n:
        segs.append(("p", r.choice(["String", "Quantity<u32>", "Vec<u8>", "Quantity", "()", "Scale", "Dimension<u8>"])))
    return segs, split(r, segs)


def split(r, segs):
    parts = []
    for s in segs:
        if s[0] == "p":
            new = tokens(r, s[1], 1)
        else:
            new = [{"value": "Quantity", **({"location": {"uri": "file:///q.rs", "range": {"start": {"line": 9, "character": 1}, "end": {"line": 9, "character": 9}}}} if r.random() < .9 else {})}]
            new += tokens(r, s[1][8:], 2)
        for p in new:      # merge neighbouring parts without a location, as the server does
            if parts and "location" not in p and "location" not in parts[-1] and p["value"] != "Quantity" and parts[-1]["value"] != "Quantity":
                parts[-1] = {"value": parts[-1]["value"] + p["value"]}
            else:
                parts.append(dict(p))
    return parts


def extra(r, depth=0):
    """arbitrary JSON"""
    c = r.random()
    if depth > 2 or c < .5:
        return r.choice([None, True, False, 0, 1, -1, 2**31, 2**53 + 1, -(2**63), 2**64 - 1, 1.5, -0.25, 1e-7, 123456.789, "", "x", "µ", "日本", "\u0000", "\U0001f680", "a\\b\"c/\n\r\n\r\n", "Content-Length: 5\r\n\r\n{}{}{}",
                         "Quantity", "Scale, Dimension", "é" * 50, "\u2028"])
    if c < .75:
        return [extra(r, depth + 1) for _ in range(r.randint(0, 3))]
    return {r.choice(["a", "b", "id", "method", "result", "value", "contents", "ключ", "label", "position", "", "x y"]) + ("" if r.random() < .5 else str(i)): extra(r, depth + 1) for i in range(r.randint(0, 3))}


def message(r, pool, mid):
    """(json value, judge info): info = ("plain",) | ("hover", [(path, segs)]) | ("hints", [(path, segs, parts)], resolve)"""
    m = {"jsonrpc": "2.0", "id": mid}
    c = r.random()
    if c < .4:
        fields = {}
        def item():
            k = r.choice(["one", "one", "decl", "decl", "two", "two", "three", "tight", "none", "unterminated"])
            segs = hover_value(r, pool, k)
            d = {r.choice(["kind", "language"]): r.choice(["markdown", "plaintext", "rust"]), "value": tt.raw(segs)}
            if r.random() < .15:
                d["extra"] = extra(r)
            return d, segs, k
        if r.random() < .85:
            d, segs, k = item(); cont = d; js = [(["result", "contents"], segs, k)]
        else:
            its = [item() for _ in range(r.randint(1, 3))]
            cont = [x[0] for x in its]; js = [(["result", "contents", i], x[1], x[2]) for i, x in enumerate(its)]
        m["result"] = {"contents": cont}
        if r.random() < .6:
            m["result"]["range"] = {"start": {"line": 3, "character": 4}, "end": {"line": 3, "character": 9}}
        if r.random() < .4:
            m["result"]["actions"] = [{"commands": [{"title": "go", "command": "x", "tooltip": "t", "arguments": [extra(r)]}]}]
        info = ("hover", js)
    elif c < .7:
        hints, js = [], []
        for i in range(r.randint(0, 5)):
            segs, parts = label(r, pool)
            h = {"position": {"line": i, "character": r.randint(0, 80)}, "label": parts, "kind": 1, "paddingLeft": False}
            if r.random() < .3:
                h["label"] = tt.raw(segs); parts = None
            if r.random() < .5:
                h["textEdits"] = [{"range": {"start": {"line": i, "character": 7}, "end": {"line": i, "character": 7}}, "newText": tt.raw(segs)}]
            if r.random() < .4:
                h["data"] = extra(r); h["tooltip"] = extra(r)
            js.append((["result", i], segs, parts)); hints.append(h)
        m["result"] = hints
        info = ("hints", js, False)
    elif c < .85:
        segs, parts = label(r, pool, r.random() < .6)
        h = {"position": {"line": 3, "character": 5}, "label": parts, "kind": 1}
        if r.random() < .7:
            h["textEdits"] = [{"range": {"start": {"line": 3, "character": r.choice([5, 5, 9])}, "end": {"line": 3, "character": 9}}, "newText": tt.raw(segs)}]
            if r.random() < .25:     # a return type together with the braces it asks for
                h["textEdits"].insert(r.randint(0, 1), {"range": {"start": {"line": 3, "character": 14}, "end": {"line": 3, "character": 14}}, "newText": r.choice(["{ ", " }", ""])})
        if r.random() < .4:
            h["data"] = extra(r)
        m["result"] = h
        info = ("hints", [(["result"], segs, parts)], True)
    else:
        k = r.random()
        if k < .3:
            m["result"] = extra(r)
        elif k < .5:
            m["error"] = {"code": -32603, "message": "no Quantity<Scale, Dimension<_M, _L<1>>> here"}
        elif k < .8:
            del m["id"]
            m["method"] = r.choice(["textDocument/publishDiagnostics", "$/progress", "window/logMessage"])
            m["params"] = {"uri": "file:///µ.rs", "message": tt.raw(tt.text(r, pool, nl=True)), "x": extra(r)}
        else:
            m["method"] = "workspace/configuration"; m["params"] = {"items": [extra(r)], "text": tt.raw(tt.text(r, pool))}
        info = ("plain",)
    if r.random() < .15:
        m[r.choice(["meta", "трейс", "trace"])] = extra(r)
    return m, info


def at(v, path):
    for p in path:
        v = v[p]
    return v


def render(r, m):
    """JSON text in some legal layout"""
    c = r.random()
    if c < .5:
        return json.dumps(m, ensure_ascii=False, separators=(",", ":"))
    if c < .7:
        return json.dumps(m, ensure_ascii=True)
    if c < .85:
        return json.dumps(m, ensure_ascii=False, indent=r.choice([1, 2]))
    return "\r\n\r\n " + json.dumps(m, ensure_ascii=False, indent=1).replace("\n", "\r\n") + "\n"


def blocks(segs):
    """which segments lie inside a ```rust block (None: the text has no complete block)"""
    t = tt.raw(segs)
    rng = [(m.start(1), m.end(1)) for m in re.finditer(r"```rust(.*?)```", t, re.S)]
    out, i = [], 0
    for s in segs:
        out.append(any(a <= i and i + len(s[1]) <= b for a, b in rng)); i += len(s[1])
    return out if rng else None


RAWSEC = re.compile(r"\n\n---\nRaw:\n\n```rust\n(.*?)\n```\n", re.S)


def judge_hover(out, segs, verbose, unicode, raw, stats):
    inb = blocks(segs)
    txt = tt.raw(segs)
    if "impl<" in txt:
        return None
    if raw:
        m = RAWSEC.search(out)
        if m and not RAWSEC.search(txt):
            shown = m.group(1)
            if re.sub(r"\s+", " ", shown).strip() not in re.sub(r"\s+", " ", txt):
                return f"the Raw section {shown!r} is not part of the text"
            out = out[:m.start()] + out[m.end():]
            stats["raw_sections"] = stats.get("raw_sections", 0) + 1
            # the section replaces nothing; layout around it may differ in blank lines
            sq = lambda t: re.sub(r"\s+", "\x01", t).strip("\x01")
            segs = [(s[0], s[1]) + s[2:] if s[0] != "p" else s for s in segs]
            return follow_loose(out, segs, inb, verbose, unicode, stats)
    return follow_in(out, segs, inb, verbose, unicode, stats)


def follow_in(out, segs, inb, verbose, unicode, stats):
    """types in rust code (or in a text without code blocks) must be shown; elsewhere they may be"""
    if inb is None:
        return tt.follow(out, segs, verbose, unicode, True, stats)
    if all(b or s[0] == "p" for s, b in zip(segs, inb)):
        return tt.follow(out, segs, verbose, unicode, True, stats)
    return tt.follow(out, segs, verbose, unicode, False, stats)


def follow_loose(out, segs, inb, verbose, unicode, stats):
    sq = lambda t: re.sub(r"\s", "", t)
    s2 = [("p", sq(s[1])) if s[0] == "p" else s for s in segs]
    # squeeze blanks of plain text only: types keep theirs, so squeeze all and compare types squeezed
    s3 = [(s[0], sq(s[1])) + s[2:] for s in s2]
    o = sq(out)
    i = 0
    for s in s3:
        if s[0] in "pu":
            if not o.startswith(s[1], i):
                return f"text {s[1]!r} has become {o[i:i + len(s[1]) + 12]!r}"
            i += len(s[1])
        elif o.startswith(s[1], i):
            i += len(s[1])
        else:
            e = tt.balanced(o, i + 8) if o.startswith("Quantity<", i) else None
            if e is None:
                return f"{s[1]!r} has become {o[i:i + 50]!r}"
            i = e
    return None if i == len(o) else f"unexpected {o[i:i + 60]!r}"


def seeded_unit(r, q, newtext):
    """is the edit `: unit!(U[, T[, B]])` this type?"""
    m = re.fullmatch(r": unit!\((.*)\)", newtext, re.S)
    if not m:
        return f"{newtext!r} is no unit! annotation"
    tail = []
    if q.t != "f64" or q.brand != "()":
        tail.append(q.t)
    if q.brand != "()":
        tail.append(q.brand)
    u = m.group(1)
    want = tt.ns("," + ",".join(tail)) if tail else ""
    k = len(u)
    if tail:
        for mm in re.finditer(",", u):
            if tt.ns(u[mm.start():]) == want:
                k = mm.start(); break
        else:
            return f"{newtext!r} does not name {', '.join(tail)}"
    return u[:k]


def run(chk):
    chk.rule = ("texts of plain fragments (Unicode, stray brackets, look-alike names) interleaved with generated quantity types in compiler spelling, in every display "
                "configuration, through process_line, process_rustc_output, process_incoming (hover, inlay hint, resolve, other) and the built command-line tool; distinct by text")
    chk.assumptions = ["blank-insensitive comparison of storage type and brand", "text of trait implementation headers (`impl<`), which the proxy documents to simplify, is not judged",
                       "a type outside a rust code block of a hover may be left raw", "units within 10^+-60"]
    r = chk.rng
    pool = tt.pool(r)
    T = chk.thorough
    jobs, meta = [], []

    def cfg():
        return [r.random() < .3, r.random() < .8, r.random() < .25]
    for _ in range(9000 if not T else 120000):
        segs = tt.text(r, pool)
        c = cfg(); jobs.append({"op": "line", "cfg": c, "text": tt.raw(segs)}); meta.append(("line", segs, c))
    for _ in range(400 if not T else 5000):
        lines = [tt.text(r, pool, types=r.choice([0, 0, 1, 2])) for _ in range(r.randint(0, 6))]
        nl = r.choice(["\n", "\n", "\r\n"]); end = r.choice([nl, nl, ""])
        c = cfg(); c[2] = False
        segs = []
        for i, l in enumerate(lines):
            segs += l + [("p", nl if i < len(lines) - 1 else end)]
        jobs.append({"op": "text", "cfg": c, "text": tt.raw(segs)}); meta.append(("text", segs, c))
    for i in range(7000 if not T else 90000):
        m, info = message(r, pool, r.choice([i, str(i), f"ид-{i}"]))
        body = render(r, m)
        c = cfg(); jobs.append({"op": "incoming", "cfg": c, "text": frame(body).decode()}); meta.append(("msg", m, info, body, c))
    p = Project("W20", deps=DEPS, use_probe=False)
    os.makedirs(os.path.join(p.dir, "src", "bin"), exist_ok=True)
    with open(os.path.join(p.dir, "src", "bin", "drv.rs"), "w") as f:
        f.write(DRV)
    exe = build_bin(p, ["build", "--offline", "--bin", "drv"], "drv")
    chk.log(f"built in {p.build_s:.1f}s; {len(jobs)} jobs")
    res = drive(exe, jobs, chk)
    chk.log("observed")
    st = chk.coverage
    edits = []
    for j, mt, x in zip(jobs, meta, res):
        chk.saw(j["text"][:300])
        name = f"{j['op']} {j['cfg']} {j['text'][:160]!r}"
        sig = f"{j['op']}:{j['cfg']}:{common.sh(j['text'])}"
        case = {"job": j, "result": x}
        if x is None:
            raise Inconclusive("driver gave no answer for a job")
        if "ok" not in x:
            chk.violate("panic:" + sig, f"{name}: {x}", case); continue
        out = x["ok"]
        v, u, raw = j["cfg"]
        if mt[0] in ("line", "text"):
            segs = mt[1]
            want_raw = raw and any(s[0] != "p" for s in segs)
            if want_raw and out != j["text"]:
                tail = "\n\nRaw:\n\n" + j["text"]
                if not out.endswith(tail):
                    chk.violate("raw:" + sig, f"{name} -> {out[:300]!r}: no raw text", case); continue
                out = out[:-len(tail)]
            w = tt.follow(out, segs, v, u, True, st)
            if w:
                chk.violate("text:" + sig, f"{name}: {w}", case)
            elif not any(s[0] != "p" for s in segs):
                chk.count("texts_untouched")
            continue
        _, m, info, body, c = mt
        got = unframe(out)
        if got is None:
            chk.violate("frame:" + sig, f"{name}: answer is not one framed message: {out[:200]!r}", case); continue
        w = judge_message(r, m, info, body, got, v, u, raw, st, edits)
        if w:
            chk.violate("msg:" + sig, f"{name}: {w}", case)
        if r.random() < .001:
            chk.samples.append({"in": body[:300], "out": got[:300]})
    cli(chk, r, pool, p)
    check_edits(chk, r, edits)
    real_diagnostics(chk, r, pool, exe)
    return chk.finish(min_events=15000)


def determined(segs):
    return any(s[0] == "q" for s in segs)


SIMPLE = r"[A-Za-zµΩ]+[⁻⁰¹²³⁴⁵⁶⁷⁸⁹]*(·[A-Za-zµΩ]+[⁻⁰¹²³⁴⁵⁶⁷⁸⁹]*)*"
KEYWORD = re.compile(r"(^|·)(as|in)([⁻⁰¹²³⁴⁵⁶⁷⁸⁹·]|$)")


def judge_message(r, m, info, body, got, v, u, raw, st, edits=None):
    kinds = {"plain": lambda: False, "hover": lambda: any(s[0] != "p" for _, segs, _ in info[1] for s in segs),
             "hints": lambda: any(s[0] != "p" for _, segs, _ in info[1] for s in segs)}
    if not kinds[info[0]]():
        st["messages_byte_identical"] = st.get("messages_byte_identical", 0) + 1
        return None if got == body else f"a message that displays no quantity type is altered: {got[:200]!r}"
    if got == body and not any(s[0] == "q" and not s[2].open for _, segs, _ in info[1] for s in segs):
        return None
    try:
        g = json.loads(got, parse_float=decimal.Decimal)
    except ValueError:
        return f"answer is no JSON: {got[:200]!r}"
    want = json.loads(body, parse_float=decimal.Decimal)
    if info[0] == "hover":
        for path, segs, kind in info[1]:
            try:
                gv = at(g, path)
                t = gv["value"]
            except (KeyError, IndexError, TypeError):
                return f"hover contents are gone: {got[:200]!r}"
            w = judge_hover(t, segs, v, u, raw, st)
            if w:
                return w
            gv["value"] = tt.raw(segs)
        st["hovers"] = st.get("hovers", 0) + 1
    else:
        for path, segs, parts in info[1]:
            try:
                gv = at(g, path)
                lab = gv["label"]
            except (KeyError, IndexError, TypeError):
                return f"hint is gone: {got[:200]!r}"
            wv = at(want, path)
            if parts is None:
                w = tt.follow(lab, segs, False, u, False, st)
                if w:
                    return "hint " + w
                gv["label"] = tt.raw(segs)
                continue
            try:
                t = "".join(p["value"] for p in lab)
            except (KeyError, TypeError):
                return f"label is {lab!r}"
            w = tt.follow(t, segs, False, u, True, st)
            if w:
                return "hint " + w
            w = label_rest(lab, parts, segs)
            if w:
                return w
            gv["label"] = wv["label"]
            st["hints"] = st.get("hints", 0) + 1
            if info[2]:
                ge, we = gv.get("textEdits"), wv.get("textEdits")
                if len(we or []) > 1 and ge != we:
                    return f"the several edits {we!r} have become {ge!r}"
                if ge == we and len(we or []) < 2 and "".join(x[1] for x in segs if x[0] == "p") == ": " and segs[1][0] == "q" and u:
                    m = re.match(r": Quantity<([^,]*), ", t)
                    if m and re.fullmatch(SIMPLE, m.group(1)) and not KEYWORD.search(m.group(1)):
                        return f"no unit! edit is offered for {t!r}: {ge!r}"
                if ge != we:
                    qs = [s[2] for s in segs if s[0] == "q"]
                    if not (isinstance(ge, list) and len(ge) == 1 and set(ge[0]) == {"range", "newText"}):
                        return f"text edits are {ge!r}"
                    rng = we[0]["range"] if we else {"start": wv["position"], "end": wv["position"]}
                    if ge[0]["range"] != rng:
                        return f"the edit's range is {ge[0]['range']}, was {rng}"
                    if not (len(segs) == 3 and segs[0][1] == ": " and not segs[2][1] or len(segs) == 2 and segs[0][1] == ": "):
                        return f"the edit of a hint that is not just one quantity type has become {ge[0]['newText']!r}"
                    if not segs[1][0] == "q":
                        return f"the edit of a type that determines no unit has become {ge[0]['newText']!r}"
                    if edits is not None:
                        edits.append((segs, ge[0]["newText"]))
                    if "textEdits" in wv:
                        gv["textEdits"] = we
                    else:
                        del gv["textEdits"]
    if g != want:
        return f"other fields differ: {got[:300]!r}"
    return None


def label_rest(lab, parts, segs):
    """parts that belong to no quantity type survive as they are (text and location), in order"""
    keep, i = [], 0
    spans, k = [], 0
    for s in segs:
        if s[0] != "p":
            spans.append((k, k + len(s[1])))
        k += len(s[1])
    for p in parts:
        a, b = i, i + len(p["value"])
        i = b
        if "location" in p and not any(x <= a and b <= y for x, y in spans):
            keep.append(p)
    it = iter(lab)
    for p in keep:
        if not any(q == p for q in it):
            return f"label part {p!r} is gone: {lab!r}"
    return None


# ------------------------------------------------------------------------------------------------- accepted hints
def check_edits(chk, r, edits):
    """compile `let x: unit!(..) = q` for edits offered for determined, nameable types"""
    cases, seen, branded = [], set(), 0
    kinds = {"Body": "pub struct Body;", "geo::World": "pub mod geo { pub struct World; }", "Frame<Left>": "pub struct Frame<T>(T); pub struct Left;", "Größe": "pub struct Größe;",
             "XDimension": "pub struct XDimension;", "MyScale<3>": "pub struct MyScale<const N: i32>;", "Mark_M<2>": "pub struct Mark_M<const N: i32>;"}
    for segs, nt in sorted(edits, key=lambda e: not any(s[0] == "q" and s[2].brand in kinds for s in e[0])):
        qs = [s for s in segs if s[0] != "p"]
        if len(qs) != 1 or qs[0][0] != "q" or qs[0][2].open:
            chk.count("edits_for_other_labels"); continue
        q = qs[0][2]
        if q.t not in un.FLOATS and q.t not in un.INTS:
            continue
        pre, post = segs[0][1], "".join(s[1] for s in segs[2:])
        if pre != ": " or post:
            continue
        if (nt, q.dim, q.scale, q.t, q.brand) in seen or not nt.startswith(": unit!("):
            continue
        seen.add((nt, q.dim, q.scale, q.t, q.brand))
        if q.brand not in ("()", *kinds):
            continue
        if q.brand in kinds:
            branded += 1
            if branded > (50 if not chk.thorough else 400):
                continue
        cases.append(Case(f"e{len(cases)}", f"fn f() -> {un.qtype(q.scale, q.dim, q.t, q.brand)} {{ loop {{}} }}\n let g = || {{ let x{nt} = f(); }}; s(id,\"k\",|| \"typed\".to_string());",
                          (nt, q)))
        if len(cases) >= (160 if not chk.thorough else 900):
            break
    p = Project("W20e", prelude="use whippyunits::quantity::*; use whippyunits::{unit,quantity}; use probe::*; " + " ".join(kinds.values()))
    p.spread(cases, 8)
    p.build()
    for c in cases:
        nt, q = c.meta
        chk.saw("edit:" + nt)
        chk.count("edits_compiled")
        if c.id in p.rejected:
            chk.violate("edit:" + nt, f"the edit {nt!r} offered for {q.dim} x {q.scale}, {q.t}, {q.brand} is not that type: {p.rejected[c.id][0][1][:160]}", c.body)


# ------------------------------------------------------------------------------------------------- command line
def build_bin(p, args, name):
    r = p.cargo(args + ["--message-format=json"])
    exe, errs = None, []
    for ln in r.stdout.decode("utf-8", "replace").splitlines():
        if ln.startswith("{"):
            m = json.loads(ln)
            if m["reason"] == "compiler-artifact" and m.get("executable") and m["target"]["name"] == name:
                exe = m["executable"]
            elif m["reason"] == "compiler-message" and m["message"]["level"] == "error":
                errs.append(m["message"]["rendered"])
    if not exe:
        raise common.NoBuild(f"{name} does not build:\n" + "\n".join(errs)[:3000] + r.stderr.decode("utf-8", "replace")[-2000:])
    return exe


def cli(chk, r, pool, p):
    """the real tool, from stdin and from a file, on text that is not always well-behaved"""
    exe = repo_bin(p, "whippyunits-pretty", "whippyunits-pretty")
    n = 60 if not chk.thorough else 600
    jobs = []
    for k in range(n):
        lines, segs = [], []
        for i in range(r.randint(0, 12)):
            s = tt.text(r, pool, types=r.choice([0, 0, 1, 2]))
            segs += s + [("p", r.choice(["\n"] * 9 + ["\r\n"]))]
        if segs and r.random() < .3:
            segs[-1] = ("p", "")
        data = [(s, s[1].encode()) for s in segs]
        junk = r.random() < .3
        if junk:      # a line of bytes that is no UTF-8, as program output may contain
            data.insert(0, (("p", "\udcff\n"), b"\xff\xfe caf\xe9\n"))
            data[0] = (("p", b"\xff\xfe caf\xe9\n".decode("utf-8", "surrogateescape")), b"\xff\xfe caf\xe9\n")
        jobs.append((data, r.choice([[], [], ["-v"], ["--no-unicode"]]), r.choice(["stdin", "stdin", "file"]) if not junk else "stdin"))

    def go(j):
        data, opts, how = j
        b = b"".join(x for _, x in data)
        try:
            if how == "stdin":
                q = subprocess.run([exe] + opts, input=b, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            else:
                f = os.path.join(p.dir, f"in{id(j)}.txt")
                open(f, "wb").write(b)
                q = subprocess.run([exe] + opts + ["-f", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            return q.returncode, q.stdout, q.stderr
        except subprocess.TimeoutExpired:
            return "timeout", b"", b""
    with ThreadPoolExecutor(common.JOBS) as tp:
        res = list(tp.map(go, jobs))
    for (data, opts, how), (rc, o, e) in zip(jobs, res):
        chk.saw(); chk.count("cli_runs")
        sig = f"cli:{how}:{opts}:{common.sh(repr(data))}"
        segs = [s for s, _ in data]
        if rc != 0:
            chk.violate(sig, f"whippyunits-pretty {opts} ({how}) exits {rc} on {b''.join(x for _, x in data)[:200]!r}: {e[-200:]!r}"); continue
        w = tt.follow(o.decode("utf-8", "surrogateescape"), segs, "-v" in opts, "--no-unicode" not in opts, True, chk.coverage)
        if w:
            chk.violate(sig, f"whippyunits-pretty {opts} ({how}): {w}", {"in": repr(b"".join(x for _, x in data)), "out": repr(o)})


    # types nested beyond anything a compiler prints, whole and cut off: no answer may be lost to them
    Q = "Quantity<Scale<_2<0>, _3<0>, _5<0>, _Pi<0>>, Dimension<_M<0>, _L<%s>, _T<0>, _I<0>, _\u0398<0>, _N<0>, _J<0>, _A<0>>, %s>"
    SH = [("Vec<", ">"), ("(", ")"), ("[", "]"), ("&", ""), ("&mut ", ""), ("*const ", ""), ("fn() -> ", ""), ("(f64,", ")"), ("<f64 as ", ">::T"), ("a::", ""), ("Vec<", ""), ("Quantity<Scale, Dimension, ", ">"), ("Quantity<Scale<", "")]
    jobs = []
    for a, b in SH:
        for n in (40, 3000, 50000):
            for t in (Q % ("1", a * n + "f64" + b * n), Q % (a * n + "1" + b * n, "f64")):
                jobs.append(([(("p", ""), f"see {t} here\nplain line\n".encode())], r.choice([[], ["-v"]]), "stdin"))
    with ThreadPoolExecutor(common.JOBS) as tp:
        res = list(tp.map(go, jobs))
    for (data, opts, how), (rc, o, e) in zip(jobs, res):
        chk.saw(); chk.count("cli_deep")
        b = data[0][1]
        if rc != 0 or not o.startswith(b"see ") or not o.endswith(b"plain line\n"):
            chk.violate(f"cli:deep:{b[:160]!r}{len(b)}", f"whippyunits-pretty {opts} exits {rc} on a line of {len(b)} bytes, {b[100:200]!r}...: {e[-200:]!r}, output {o[:60]!r}...{o[-60:]!r}")


def repo_bin(p, package, name):
    """build a binary of the repository itself, outside it"""
    r = subprocess.run(["cargo", "build", "--offline", "-p", package, "--bin", name, "--message-format=json", "--manifest-path", os.path.join(common.REPO, "Cargo.toml"), "--locked"],
                       env=common.cargo_env("stable"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=850)
    for ln in r.stdout.decode("utf-8", "replace").splitlines():
        if ln.startswith("{"):
            m = json.loads(ln)
            if m["reason"] == "compiler-artifact" and m.get("executable") and m["target"]["name"] == name:
                return m["executable"]
    raise common.NoBuild(f"{name} does not build:\n" + r.stderr.decode("utf-8", "replace")[-3000:])


# ------------------------------------------------------------------------------------------------- real diagnostics
def real_diagnostics(chk, r, pool, exe):
    """rustc's own text about known types, through the printer: every unit it then shows must be one of the types in the program"""
    cases = []
    for i in range(60 if not chk.thorough else 500):
        q = tt.rq(r, pool, True)
        if q.t not in un.FLOATS and q.t not in un.INTS:
            q.t = "f64"
        q2 = tt.Q(*r.choice(pool), q.t, "()") if r.random() < .6 else tt.Q(q.dim, q.scale, "f32" if q.t == "f64" else "f64", "()")
        if (q2.dim, q2.scale) == (q.dim, q.scale) and q2.t == q.t:
            continue
        a, b = un.qtype(q.scale, q.dim, q.t), un.qtype(q2.scale, q2.dim, q2.t)
        body = r.choice(["let x: {b} = f();", "let x: () = f();", "let x = f() + g();", "let x: Vec<{b}> = vec![f()];", "let x: Option<{b}> = Some(Some(f()));", "h(f());"]).replace("{b}", b)
        cases.append(Case(f"d{len(cases)}", f"fn f() -> {a} {{ loop {{}} }} fn g() -> {b} {{ loop {{}} }} fn h(x: &{b}) {{}}\n let g2 = || {{ {body} }};", (q, q2)))
    p = Project("W20d", prelude="use whippyunits::quantity::*; use probe::*;")
    p.spread(cases, 8)
    p.build()
    jobs, meta = [], []
    for c in cases:
        for code, msg, txt in p.rejected.get(c.id, []):
            for line in txt.split("\n"):
                if "Quantity<Scale" in line:
                    v = r.random() < .3
                    jobs.append({"op": "line", "cfg": [v, True, False], "text": line}); meta.append((c.meta, v))
    res = drive(exe, jobs, chk)
    chk.coverage["real_diagnostic_lines"] = len(jobs)
    for j, ((q, q2), v), x in zip(jobs, meta, res):
        chk.saw(j["text"][:300])
        if not x or "ok" not in x:
            chk.violate("panic:" + common.sh(j["text"]), f"{j['text']!r}: {x}"); continue
        out = x["ok"]
        src, dst = re.split(r"Quantity<", j["text"]), re.split(r"Quantity<", out)
        if len(src) != len(dst):
            chk.violate("diag:" + common.sh(j["text"]), f"{j['text']!r} -> {out!r}: number of types differs"); continue
        k = 0
        a, b = 0, 0
        while True:
            ia, ib = j["text"].find("Quantity<", a), out.find("Quantity<", b)
            if ia < 0 or ib < 0:
                if j["text"][a:] != out[b:]:
                    chk.violate("diag:" + common.sh(j["text"]), f"{j['text']!r} -> {out!r}: text differs")
                break
            if j["text"][a:ia] != out[b:ib]:
                chk.violate("diag:" + common.sh(j["text"]), f"{j['text']!r} -> {out!r}: text differs"); break
            ea, eb = tt.balanced(j["text"], ia + 8), tt.balanced(out, ib + 8)
            if ea is None or eb is None:
                if j["text"][ia:] != out[ib:]:
                    chk.violate("diag:" + common.sh(j["text"]), f"{j['text']!r} -> {out!r}: text differs")
                break
            s, t = j["text"][ia:ea], out[ib:eb]
            a, b = ea, eb
            if s == t:
                chk.count("real_types_left_raw"); continue
            # rustc writes `_` for a storage type that is the same on both sides
            blank = [tt.with_storage(y, "_") for y in (q, q2)] if re.search(r", _>$", s) else []
            ws = [tt.judge(t, y, v) for y in (q, q2, *blank)]
            if all(ws):
                chk.violate("diag:" + common.sh(j["text"]), f"rustc's {s!r} is shown as {t!r}, which is neither type of the program ({ws})", j); break
            chk.count("real_types_shown")
