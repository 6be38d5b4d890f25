"""W19: the running proxy between a stand-in editor and a stand-in language server: delivery of every message, both ways."""
import base64, json, os, random, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
import common, tooltext as tt, w20
from common import Project, Inconclusive

SERVER = f"#!{sys.executable} -SE" + r'''
# a stand-in rust-analyzer: follows a plan, records everything it is sent
import json, os, sys, threading, time
if sys.argv[1:] == ["--version"]:
    print("rust-analyzer 0.0.0 (stand-in)"); sys.exit(0)
d = os.environ["STANDIN_DIR"]
plan = json.load(open(d + "/plan.json"))
data = open(d + "/out.bin", "rb").read()
json.dump(sys.argv[1:], open(d + "/argv.json", "w"))
log = open(d + "/got.bin", "wb", buffering=0)
start = threading.Event()
seen = [0]
buf = bytearray()
more = threading.Condition()
def reader():
    start.wait()
    while True:
        b = os.read(0, plan["read"])
        if b:
            log.write(b)
        if plan["dialogue"]:
            buf.extend(b)
            with more:
                while True:
                    e = buf.find(b"\r\n\r\n")
                    n = [int(l[15:]) for l in bytes(buf[:max(e, 0)]).lower().split(b"\r\n") if l.startswith(b"content-length:")]
                    if e < 0 or not n or e + 4 + n[0] > len(buf):
                        break
                    del buf[:e + 4 + n[0]]
                    seen[0] += 1
                if not b:
                    seen[0] = 1 << 60
                more.notify_all()
        if not b:
            return
        if plan["read_ms"]:
            time.sleep(plan["read_ms"] / 1000)
t = threading.Thread(target=reader, daemon=True)
t.start()
if not plan["late_reader"]:
    start.set()
k = 0
for s in plan["steps"]:
    if s[0] == "w":
        b = data[k:k + s[1]]; k += s[1]
        while b:
            b = b[os.write(1, b):]
    elif s[0] == "s":
        time.sleep(s[1] / 1000)
    elif s[0] == "r":       # go on when this many messages have been received
        with more:
            more.wait_for(lambda: seen[0] >= s[1])
    elif s[0] == "e":
        try:
            os.write(2, bytes.fromhex(s[1]))
        except OSError:
            pass
    elif s[0] == "ce":
        os.close(2)
start.set()
if plan["wait_eof"]:
    t.join()
open(d + "/done", "w").close()
os._exit(plan["rc"])
'''
HEADERS = ["Content-Length: {n}\r\n\r\n"] * 6 + ["Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n",
           "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {n}\r\n\r\n", "content-length: {n}\r\n\r\n", "Content-Length:{n}\r\n\r\n", "CONTENT-LENGTH:   {n}\r\n\r\n"]
VARIANTS = ["orderly", "orderly", "editor-closes-early", "server-exits", "stderr-closed", "stderr-junk", "truncated", "editor-truncated"]
SPECIAL = ["idle"] * 6 + ["dialogue"] * 14 + ["huge"] * 3 + ["many"] * 2


def parse(b):
    """(complete bodies, leftover bytes, complaint)"""
    out, i = [], 0
    while True:
        e = b.find(b"\r\n\r\n", i)
        if e < 0:
            return out, b[i:], None
        n = None
        for l in b[i:e].split(b"\r\n"):
            k, s, v = l.partition(b":")
            if not s or k.strip().lower() not in (b"content-length", b"content-type"):
                return out, b[i:], f"bad header line {l[:80]!r}"
            if k.strip().lower() == b"content-length":
                try:
                    n = int(v)
                except ValueError:
                    return out, b[i:], f"bad length {v[:40]!r}"
        if n is None:
            return out, b[i:], f"no length in {b[i:e][:80]!r}"
        if e + 4 + n > len(b):
            return out, b[i:], None
        out.append(b[e + 4:e + 4 + n]); i = e + 4 + n


def frame(r, body):
    return r.choice(HEADERS).format(n=len(body)).encode() + body


def bodies(r, pool, n, side):
    """[(bytes, judge info or None)] for one direction"""
    out = []
    for k in range(n):
        c = r.random()
        if c < .02:
            m = {"jsonrpc": "2.0", "id": k, "result": {"blob": r.choice(["µ", "x", "\r\n\r\n", "Quantity ", "é\\"]) * r.choice([3000, 60000, 400000])}}
            out.append((w20.render(r, m).encode(), (m, ("plain",))))
        elif c < .05:
            out.append((r.choice([b"", b"{}", b"null", b" ", b"[]", "µ".encode(), b"not json", b"Content-Length: 3\r\n\r\nabc", b"\r\n\r\n", b"\n"]), (None, ("plain",))))
        elif c < .3:
            m = {"jsonrpc": "2.0", "id": k, "method": r.choice(["textDocument/hover", "initialize", "shutdown", "$/cancelRequest"]), "params": w20.extra(r)}
            out.append((w20.render(r, m).encode("utf-8", "replace"), (m, ("plain",))))
        else:
            m, info = w20.message(r, pool, k)
            out.append((w20.render(r, m).encode(), (m, info if side == "server" else ("plain",))))
        if r.random() < .05:      # the very same message again, at once or later
            out += [r.choice(out[-3:])] * r.choice([1, 1, 2])
    return out


def chunks(r, n):
    """sizes that cut n bytes"""
    mode = r.choice(["whole", "big", "small", "tiny"])
    out = []
    while n > 0:
        k = {"whole": n, "big": r.randint(1000, 70000), "small": r.randint(1, 4000), "tiny": r.randint(1, 60)}[mode]
        if len(out) > 400:
            k = max(k, n // 50 + 1)
        out.append(min(k, n)); n -= out[-1]
    return out


def session(args):
    exe, root, k, seed, pool, variant = args
    r = random.Random(f"W19/{seed}/{k}")
    d = os.path.join(root, f"s{k}")
    os.makedirs(d, exist_ok=True)
    nd, nu = r.choice([0, 1, 5, 40, 120]), r.choice([0, 1, 5, 40, 120])
    if variant in ("dialogue", "huge", "idle"):
        nd = nu = {"dialogue": r.choice([1, 3, 12, 30]), "huge": 4, "idle": 12}[variant]
    if variant == "many":
        nd, nu = 2500, 2500
    down, up = bodies(r, pool, nd, "server"), bodies(r, pool, nu, "editor")
    if variant == "dialogue":
        n = min(len(down), len(up)); down, up = down[:n], up[:n]
    if variant == "huge":
        for side in (down, up):
            m = {"jsonrpc": "2.0", "id": "huge", "result": {"blob": r.choice(["x", "\u00b5", "ab\\n"]) * r.randint(7000000, 12000000)}}
            side.insert(r.randint(0, len(side)), (w20.render(r, m).encode(), (m, ("plain",))))
    dfr, ufr = [frame(r, b) for b, _ in down], [frame(r, b) for b, _ in up]
    dn, upb = b"".join(dfr), b"".join(ufr)
    tail = b""
    if variant == "truncated":
        f = frame(r, w20.render(r, w20.message(r, pool, 9999)[0]).encode())
        tail = f[:r.randint(1, len(f) - 1)]
    uptail = b""
    if variant == "editor-truncated":
        f = frame(r, w20.render(r, w20.message(r, pool, 9999)[0]).encode())
        uptail = f[:r.randint(1, len(f) - 1)]
    steps = []
    errs = [b"warning: something\n", b"\xff\xfe\x00junk", "µ-text\n".encode(), b"x" * 5000, b"no newline", b"\xe2\x82"]
    if variant == "dialogue":       # the server answers each message when it has it, the editor goes on when it has the answer
        k2 = 0
        for a, b in zip(ufr, dfr):
            k2 += 1
            steps += [["r", k2]] + [["w", c] for c in chunks(r, len(b))]
    for c in chunks(r, len(dn + tail)) if variant != "dialogue" else []:
        steps.append(["w", c])
        if r.random() < .15:
            steps.append(["s", r.choice([0, 1, 2, 5, 20]) if len(steps) < 200 else 0])
        if variant == "stderr-junk" and r.random() < .3 or r.random() < .02:
            steps.append(["e", r.choice(errs if variant == "stderr-junk" else errs[:1]).hex()])
    if variant == "stderr-junk":
        steps.insert(r.randint(0, len(steps)), ["e", errs[1].hex()])
    if variant == "stderr-closed":
        steps.insert(r.randint(0, min(3, len(steps))), ["ce"])
        steps.insert(r.randint(0, len(steps)), ["s", 60])
    if variant == "idle":
        for _ in range(2):
            steps.insert(r.randint(0, len(steps)), ["s", r.choice([1500, 3500, 6500])])
    if variant == "editor-closes-early":
        steps.insert(r.randint(0, len(steps)), ["s", 150])
    plan = {"steps": steps, "read": r.choice([1, 100, 65536]) if len(upb) < 4000 else 65536, "read_ms": r.choice([0, 0, 0, 1]) if len(upb) < 4000 else 0,
            "dialogue": variant == "dialogue", "late_reader": variant not in ("server-exits", "dialogue") and r.random() < .15, "wait_eof": variant not in ("server-exits", "truncated"), "rc": r.choice([0, 0, 1])}
    json.dump(plan, open(os.path.join(d, "plan.json"), "w"))
    open(os.path.join(d, "out.bin"), "wb").write(dn + tail)
    cfg = [r.random() < .4, r.random() < .75, r.random() < .35]
    env = {k2: v for k2, v in os.environ.items() if not k2.startswith(("WHIPPYUNITS_", "RUST_LOG"))}
    env.update(PATH=os.path.join(root, "bin") + ":/usr/bin:/bin", STANDIN_DIR=d, HOME=d)
    for name, v, dflt in zip(["WHIPPYUNITS_VERBOSE", "WHIPPYUNITS_UNICODE", "WHIPPYUNITS_INCLUDE_RAW"], cfg, [False, True, False]):
        if v != dflt or r.random() < .5:
            env[name] = r.choice(["true", "1"] if v else ["false", "0"])
    argv = r.choice([[], [], ["--log-file", "a b µ", ""], ["-v"]])
    p = subprocess.Popen([exe] + argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, bufsize=0, start_new_session=True)
    ups = chunks(r, len(upb + uptail))
    delays = [r.choice([0] * 12 + [1, 3, 10]) if i < 200 else 0 for i in range(len(ups))]
    if variant == "dialogue":
        ups = [len(f) for f in ufr]
        delays = [0] * len(ups)
    if variant == "idle" and ups:
        for _ in range(2):
            delays[r.randrange(min(len(ups), 200))] = r.choice([1500, 3500, 6500])
    slow_read = r.random() < .15
    answered = threading.Semaphore(0)
    got, gate = bytearray(), threading.Event()
    if not down:
        gate.set()
    ev = {"interleave": 0, "last": None}

    def note(w):
        if ev["last"] not in (None, w):
            ev["interleave"] += 1
        ev["last"] = w

    def writer():
        i = 0
        b = upb + uptail
        try:
            for n, dl in zip(ups, delays):
                part = b[i:i + n]
                while part:
                    part = part[os.write(p.stdin.fileno(), part):]
                i += n
                note("u")
                if variant == "dialogue" and not answered.acquire(timeout=90):
                    return
                if dl:
                    time.sleep(dl / 1000)
            if variant not in ("editor-closes-early", "server-exits", "truncated", "editor-truncated"):
                gate.wait(100)
            if variant not in ("server-exits", "truncated"):
                p.stdin.close()
        except (OSError, ValueError):
            pass
    err = bytearray()

    def errs_reader():
        while True:
            b = os.read(p.stderr.fileno(), 65536)
            if not b:
                return
            err.extend(b)
    tw, te = threading.Thread(target=writer, daemon=True), threading.Thread(target=errs_reader, daemon=True)
    tw.start(); te.start()
    hung = []

    def watchdog():
        hung.append(1)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    wd = threading.Timer(75, watchdog)
    wd.daemon = True; wd.start()
    if slow_read:
        time.sleep(.3)
    t0 = time.time()
    nread = 0
    shown = 0
    at = [0, 0]     # bytes of complete messages, and how many

    def count():
        while True:
            e = got.find(b"\r\n\r\n", at[0])
            if e < 0:
                return at[1]
            n = None
            for l in bytes(got[at[0]:e]).lower().split(b"\r\n"):
                if l.startswith(b"content-length:") and l[15:].strip().isdigit():
                    n = int(l[15:])
            if n is None or e + 4 + n > len(got):
                return at[1]
            at[0], at[1] = e + 4 + n, at[1] + 1
    while True:
        b = os.read(p.stdout.fileno(), r.choice([65536, 65536, 100]) if len(dn) < 2000000 else 1 << 20)
        if not b:
            break
        nread += 1
        got.extend(b)
        note("d")
        if variant == "dialogue":
            k2 = count()
            if k2 > shown:
                answered.release(k2 - shown); shown = k2
        # the editor of an orderly session goes on until it has an answer to everything and the server has everything
        if not gate.is_set() and (nread % 20 == 0 or len(b) < 65536):
            if count() >= len(down):
                gate.set()
    gate.set()
    try:
        rc = p.wait(100)
    except subprocess.TimeoutExpired:
        rc = None
    wd.cancel()
    exited_by_itself = rc is not None and not hung
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    tw.join(5)
    try:
        p.stdin.close()
    except OSError:
        pass
    te.join(5)
    sgot = b""
    f = os.path.join(d, "got.bin")
    if os.path.exists(f):
        sgot = open(f, "rb").read()
    a = os.path.join(d, "argv.json")
    sargv = json.load(open(a)) if os.path.exists(a) else None
    return dict(k=k, variant=variant, cfg=cfg, down=down, up=up, got=bytes(got), sgot=sgot, exited=exited_by_itself, rc=rc, tail=tail, uptail=uptail, argv=argv, sargv=sargv,
                plan=plan, interleave=ev["interleave"], reads=nread, writes=len(ups) + len(steps), err=bytes(err), env={k: v for k, v in env.items() if k.startswith("WHIPPY")},
                frames=(dn, upb))


def judge(chk, s):
    r = chk.rng
    name = f"session {s['k']} ({s['variant']}, {len(s['down'])} down, {len(s['up'])} up)"
    case = {"session": s["k"], "variant": s["variant"], "cfg": s["cfg"], "plan": {x: y for x, y in s["plan"].items() if x != "steps"}, "stderr": s["err"][-600:].decode("utf-8", "replace")}

    def bad(kind, what):
        chk.violate(f"{kind}:{s['variant']}:{s['k']}", f"{name}: {what}", case)
    if not s["exited"]:
        return bad("end", "the proxy did not end within 75 s although the session is over")
    if s["sargv"] is None:
        if s["variant"] not in ("server-exits", "truncated"):
            return bad("start", f"the server was never started (exit {s['rc']}, {s['err'][-200:]!r})")
    elif s["sargv"] != s["argv"]:
        return bad("args", f"the server was started with {s['sargv']}, not {s['argv']}")
    # server -> editor
    out, rest, w = parse(s["got"])
    if w:
        return bad("down-frame", f"what the editor receives is not framed: {w}")
    if s["tail"]:
        if rest and not s["tail"].startswith(rest):
            return bad("down-tail", f"a truncated message was delivered as {rest[:200]!r}")
    elif rest:
        return bad("down-tail", f"the editor's stream ends in {rest[:200]!r}")
    for i, (b, (m, info)) in enumerate(s["down"]):
        if i >= len(out):
            return bad("down-lost", f"message {i} of {len(s['down'])} from the server never arrives: {b[:120]!r}")
        chk.saw(("d", b[:400]))
        try:
            body, o = b.decode(), out[i].decode()
        except UnicodeDecodeError:
            return bad("down-body", f"message {i} arrives as {out[i][:200]!r}")
        w = w20.judge_message(r, m, info, body, o, *s["cfg"], chk.coverage)
        if w:
            return bad("down-body", f"message {i}: {w}; sent {body[:200]!r}, arrived {o[:200]!r}")
        chk.count("delivered_to_editor")
    if len(out) > len(s["down"]):
        return bad("down-extra", f"the editor receives {len(out) - len(s['down'])} messages that were never sent: {out[len(s['down'])][:200]!r}")
    # editor -> server
    out, rest, w = parse(s["sgot"])
    if w:
        return bad("up-frame", f"what the server receives is not framed: {w}")
    sent = [b for b, _ in s["up"]]
    partial = s["variant"] in ("server-exits", "truncated")      # the server may leave before it has read everything
    if not partial:
        if rest and not (s["uptail"] and s["uptail"].startswith(rest)):
            return bad("up-tail", f"the server's stream ends in {rest[:200]!r}")
        if len(out) < len(sent):
            return bad("up-lost", f"message {len(out)} of {len(sent)} from the editor never arrives: {sent[len(out)][:120]!r}")
    for i, b in enumerate(out):
        if i >= len(sent) or b != sent[i]:
            return bad("up-body", f"message {i} from the editor arrives as {b[:200]!r}, sent was {(sent[i] if i < len(sent) else b'')[:200]!r}")
        chk.saw(("u", b[:400])); chk.count("delivered_to_server")
    chk.count("sessions"); chk.count("sessions_" + s["variant"])
    chk.count("direction_switches", s["interleave"]); chk.count("writes", s["writes"]); chk.count("editor_reads", s["reads"])
    chk.count("header_variants", sum(1 for x in s["frames"] if b"Content-Type" in x or b"content-length" in x))
    if len(chk.samples) < 10:
        chk.samples.append({"session": s["k"], "variant": s["variant"], "down": len(s["down"]), "up": len(s["up"]), "direction_switches": s["interleave"], "bytes": [len(s["got"]), len(s["sgot"])]})


def run(chk):
    chk.rule = ("sessions of the built proxy between a stand-in editor and a stand-in rust-analyzer: up to 120 messages each way, cut into random chunks with random delays, concurrently, "
                "with header variants, bodies up to 1 MB (a few up to 40 MB), question-and-answer dialogues, pauses of seconds, thousands of messages, and early, late and abnormal ends of either side; both ends' byte streams are parsed and compared with what the other side sent; distinct by body")
    chk.assumptions = ["bodies are UTF-8 (JSON-RPC); the host's pipe scheduling and 8 parallel sessions decide which interleavings occur", "a server that exits while the editor is writing may miss the rest"]
    p = Project("W19", use_probe=False)
    exe = w20.repo_bin(p, "whippyunits-lsp-proxy", "lsp-proxy")
    chk.log("built")
    root = os.path.join(p.dir, "sessions")
    subprocess.run(["rm", "-rf", root], check=True)
    os.makedirs(os.path.join(root, "bin"))
    f = os.path.join(root, "bin", "rust-analyzer")
    open(f, "w").write(SERVER)
    os.chmod(f, 0o755)
    pool = tt.pool(chk.rng, 600)
    n = 320 if not chk.thorough else 6000
    special = SPECIAL * (1 if not chk.thorough else 6)
    jobs = [(exe, root, k, f"{chk.seed}/{chk.tier}", pool, v) for k, v in enumerate(special + [VARIANTS[k % len(VARIANTS)] for k in range(n)])]
    with ThreadPoolExecutor(common.JOBS) as tp:
        for i in range(0, len(jobs), 40):
            for s in tp.map(session, jobs[i:i + 40]):
                judge(chk, s)
                subprocess.run(["rm", "-rf", os.path.join(root, f"s{s['k']}")])
            if len(chk.violations) >= 8:        # sessions that hang cost minutes each
                break
    chk.log("observed")
    return chk.finish(min_events=3000)
