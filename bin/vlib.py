"""Shared machinery: building the drivers, running TLC, shards, evidence."""
import concurrent.futures as cf
import gzip, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BLITSTR_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, ".out")
NCPU = 8
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAXM = 2**64 - 1


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="", GOCACHE="/root/.cache/go-build", RUST_BACKTRACE="0")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTFLAGS", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return e


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "states"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if f.endswith("Cargo.lock"):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _prune(prefix, keep):
    if not os.path.isdir(BUILD):
        return
    olds = sorted((os.path.join(BUILD, n) for n in os.listdir(BUILD) if n.startswith(prefix)),
                  key=os.path.getmtime, reverse=True)
    for p in olds[keep:]:
        shutil.rmtree(p, ignore_errors=True)


def build_driver(profile="dev", repo=None, out=None):
    """Build the conformance driver against repo's working tree. The build
    directory is keyed by the content of the sources, so that a changed file
    with an old mtime can never leave a stale binary behind."""
    repo = repo or REPO
    src = os.path.join(VERIF, "harness", "driver")
    key = out or tree_hash(os.path.join(repo, "src"), os.path.join(repo, "Cargo.toml"), src)
    d = out or os.path.join(BUILD, "drv-%s-%s" % (profile, key))
    exe = os.path.join(d, "driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-", dir=BUILD)
    try:
        shutil.copytree(src, os.path.join(work, "driver"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        toml = os.path.join(work, "driver", "Cargo.toml")
        t = open(toml).read().replace('path = "../../../repo"', 'path = "%s"' % repo)
        open(toml, "w").write(t)
        cmd = ["cargo", "build", "--offline", "-q", "--target-dir", os.path.join(work, "t")]
        if profile == "release":
            cmd.append("--release")
        p = subprocess.run(cmd, cwd=os.path.join(work, "driver"), env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            raise ToolError("driver build failed (%s):\n%s" % (profile, p.stdout[-3000:]))
        built = os.path.join(work, "t", "release" if profile == "release" else "debug", "driver")
        os.makedirs(d, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        shutil.copy(built, tmp)
        os.replace(tmp, exe)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not out:
        _prune("drv-" + profile, 3)
    return exe


# ---------------------------------------------------------------- font
_golden = None
_golden_lock = threading.Lock()


def golden():
    global _golden
    with _golden_lock:
        if _golden is None:
            g = json.load(gzip.open(os.path.join(VERIF, "font", "golden.json.gz")))["sets"]
            for s in g.values():
                s["by_first"], s["memo"] = {}, {}
                for c, k in s["index"]:
                    s["by_first"].setdefault(c[0], []).append((c, k))
            _golden = g
        return _golden


NOFONT = {"C01", "C02", "C03", "C10", "C13", "C14", "C18", "C21", "C22", "C23"}   # TLC compares recorded values only


def font_subset(first_cps, path, font=None):
    """The part of the font constants a trace needs: every cluster of every
    glyph set that starts with a codepoint occurring in the trace."""
    font = font or golden()
    need = set(first_cps) | {0xFFFD}
    out = []
    for name, s in font.items():
        memo = s.setdefault("memo", {})
        idx, gl = [], {}
        for cp in need:
            es = s["by_first"].get(cp)
            if es:
                if cp not in memo:
                    memo[cp] = ('"%d":%s' % (cp, json.dumps([{"cps": c, "g": str(g)} for c, g in es])),
                                {g: '"%d":{"w":%d,"h":%d,"yo":%d,"rows":%s}' % ((g,) + tuple(s["glyphs"][g][:3]) + (json.dumps(s["glyphs"][g][3]),))
                                 for _, g in es})
                idx.append(memo[cp][0])
                gl.update(memo[cp][1])
        # TLC's JSON reader maps {} to an empty record; keep one dummy entry
        if not idx:
            idx, gl = ['"x":[]'], {0: '"x":{"w":0,"h":0,"yo":0,"rows":[]}'}
        out.append('"%s":{"maxh":%d,"index":{%s},"glyphs":{%s}}' % (name, s["max_height"], ",".join(idx), ",".join(gl.values())))
    with open(path, "w") as f:
        f.write("{" + ",".join(out) + "}")


# ---------------------------------------------------------------- driver runs
def run_driver(exe, scen_lines, out, mode=("run",), timeout=300):
    """Execute scenario lines. Returns (scenario path). A crash or hang of the
    code under test is turned into an event with ok=false."""
    sp = out + ".scen"
    with open(sp, "w") as f:
        f.write("\n".join(scen_lines) + "\n")
    cmd = [exe, mode[0], sp, out] + list(mode[1:])

    def go(extra=()):
        try:
            p = subprocess.run(cmd + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            return p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return 97, "TIMEOUT"
    rc, err = go()
    if rc == 0:
        return
    if mode[0] != "run":
        raise ToolError("driver %s failed rc=%s %s" % (mode, rc, err[-500:]))
    rc, err = go(["--flush"])
    if rc == 0:
        return
    with open(out) as f:
        got = f.read()
    lines = got.split("\n")
    if lines and lines[-1] != "":
        lines = lines[:-1] + [""]
    n = len(lines) - 1
    evs = [s for s in scen_lines if s.strip() and not s.startswith("bg") and not s.startswith("#")]
    if n >= len(evs):
        raise ToolError("driver failed after its last line rc=%s %s" % (rc, err[-500:]))
    lines = lines[:n] + [dead_event(evs[n], rc, err)]
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")


def proj(t, at=0):
    if t == "@":
        return at
    if t.startswith("M"):
        return 2**30 - int(t[1:])
    if t.startswith("B"):
        b, k = t[1:].split(".")
        v = (1 << int(b)) + int(k)
        return v if v <= 490000000 else 500000000 + int(b) * 1000000 + int(k)
    return int(t)


def dead_event(line, rc, err):
    """The event of a call that never returned (hang, abort, stack overflow)."""
    t = line.split()
    why = "no return: rc=%s %s" % (rc, err.strip()[-200:])
    return json.dumps(dict(dead_call(t, line, why), line=line))


def dead_call(t, line, why):
    if t[0] == "p":
        return {"k": "paint", "ok": False, "why": why, "clip": [proj(x) for x in t[1:5]], "st": int(t[5]),
                           "cur": [proj(x) for x in t[6:9]], "s": [] if t[9] == "-" else [int(c) for c in t[9].split(",")],
                           "post": [0, 0, 0], "delta": []}
    if t[0] == "c":
        return {"k": "clear", "ok": False, "why": why, "clip": [proj(x) for x in t[1:5]], "pat": [], "tracked": False, "delta": []}
    if t[0] == "d":
        return {"k": "demo", "ok": False, "why": why, "name": t[1], "padpre": [], "padpost": [], "rows": []}
    kinds = {"R": "rect", "U": "cursor", "T": "topleft", "F": "screen", "E": "eq", "Y": "style"}
    if t[0] in kinds:
        return {"k": kinds[t[0]], "ok": False, "why": why}
    raise ToolError("driver died at %r: %s" % (line, why))


# ---------------------------------------------------------------- TLC
STAT = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def tlc(module, cfg, envs=None, workers="1", timeout=600, heap="2g", extra=(), cwd=SPEC, light=False):
    md = tempfile.mkdtemp(prefix="tlc-", dir=OUT)
    e = env()
    e.update(envs or {})
    # short single-threaded runs, eight at a time: the optimising JIT costs more than it gains
    jvm = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if light else ["-XX:+UseParallelGC"]
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md] + jvm + ["-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-lncheck", "final",
           "-config", cfg] + list(extra) + [module]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timeout on %s %s: %s" % (module, cfg, (x.stdout or b"")[-800:]))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = STAT.findall(out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": st[0], "distinct": st[1], "wall": time.time() - t0}


def tlc_ok(r):
    return r["rc"] == 0 and "Model checking completed. No error has been found" in r["out"]


def font_text(path):
    """Font constants as a flat file for the driver's generators."""
    g = golden()
    with open(path, "w") as f:
        for name in ("Emoji", "Hanzi", "Small", "Regular", "Bold"):
            s = g[name]
            f.write("S %s %d\n" % (name, s["max_height"]))
            for w, h, yo, rows in s["glyphs"]:
                f.write(("G %d %d %d %s" % (w, h, yo, " ".join(
                    "%x" % sum(((1 << (b - a + 1)) - 1) << a for a, b in r) for r in rows))).rstrip() + "\n")
            for c, gl in s["index"]:
                f.write("I %s %d\n" % (",".join(map(str, c)), gl))


# ---------------------------------------------------------------- trace validation
class Stats:
    def __init__(self):
        self.events = 0        # recorded calls of the real code given to TLC
        self.rels = 0
        self.shards = 0
        self.generated = 0
        self.distinct = 0
        self.models = []       # design models checked
        self.teeth = []        # slips and reachability goals they told apart
        self.scouted = 0
        self.flagged = 0
        self.flag_judged = 0
        self.samples = []
        self.extra = {}


def gen_chunks(exe, font, seed, specs):
    """[[line, ...], ...] from the driver's generators."""
    if not specs:
        return []
    p = subprocess.run([exe, "gen", font, str(seed)] + ["%s:%d" % s for s in specs], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode:
        raise ToolError("generator failed: " + p.stderr[-800:])
    return parse_chunks(p.stdout)[0]


def parse_chunks(text):
    chunks, heads, events = [], [], []
    for ln in text.split("\n"):
        if ln.startswith("# "):
            chunks.append([])
            heads.append(ln[2:])
            events.append([])
        elif ln.startswith("X "):
            op, ev = ln[2:].split("|", 1)
            events[-1].append((op, ev))
        elif ln:
            chunks[-1].append(ln)
    return chunks, heads, events


def scout(exe, font, seed, specs, limit=25, seconds=25, tag="s"):
    """Bulk comparison of the code with the transcribed specification;
    returns (summary, flagged chunks, heads, events recorded in place)."""
    out = os.path.join(OUT, "scout-%s-%d.txt" % (tag, os.getpid()))
    p = subprocess.run([exe, "scout", font, str(seed), out, str(limit), str(NCPU), str(seconds)] +
                       ["%s:%d" % s for s in specs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=seconds + 240)
    if p.returncode:
        # the code under test took the whole process down (abort, stack
        # overflow, ...): nothing to report from here, TLC's own traces decide
        return {"chunks": 0, "events": 0, "flagged": 0, "crash": p.stderr[-300:]}, [], [], []
    info = json.loads(p.stdout.strip().split("\n")[-1])
    ch, heads, evs = parse_chunks(open(out).read())
    os.remove(out)
    return info, ch, heads, evs


def is_event(line):
    return line.split(" ", 1)[0] != "bg"


def shard_chunks(chunks, n):
    """Deal chunks out to n shards of about equal weight."""
    def weight(c):
        return sum(300 if ln.startswith("d ") else 2 + ln.count(",") for ln in c)
    sh = [[0, i, []] for i in range(n)]
    for c in sorted(chunks, key=weight, reverse=True):
        s = min(sh)
        s[0] += weight(c)
        s[2].append(c)
    return [s[2] for s in sh if s[2]]


def event_first_cps(ev):
    return ev.get("s", ())


DEMO_CPS = None


def demo_cps():
    global DEMO_CPS
    if DEMO_CPS is None:
        t = open(os.path.join(SPEC, "DemoScript.tla")).read()
        DEMO_CPS = {int(x) for b in re.findall(r"<<([\d,\s]+)>>", t) for x in b.split(",")}
    return DEMO_CPS


def judge(prop, trace, font=None, st=None, timeout=800, fontfile=None):
    """TLC on one recorded trace. None if accepted, else (line index, message)."""
    evs = [json.loads(x) for x in open(trace) if x.strip()]
    if not evs:
        return None
    need = set()
    for e in evs if prop not in NOFONT else ():
        need.update(e.get("s", ()))
        if e["k"] == "demo":
            need |= demo_cps()
    fj = fontfile or trace + ".font.json"
    if not fontfile:
        font_subset(need, fj, font)
    r = tlc("Trace.tla", "Trace.cfg", {"TRACE": trace, "FONT": fj, "PROP": prop}, timeout=timeout,
            light=sum(10 + len(e.get("s", ())) for e in evs) < 60000)
    if not fontfile:
        os.remove(fj)
    if st is not None:
        st.shards += 1
        st.generated += r["generated"]
        st.distinct += r["distinct"]
        st.rels += sum(e["k"] == "rel" for e in evs)
        st.events += sum(e["k"] != "rel" for e in evs)
    if tlc_ok(r):
        if '"trace consumed"' not in r["out"]:
            raise ToolError("TLC stopped before the end of %s" % trace)
        return None
    ls = [int(x) for x in re.findall(r"/\\ l = (\d+)", r["out"])]
    if "Invariant NoViolation is violated" in r["out"] and ls:
        return ls[-1] - 2, "the event is not one the specification allows for this property"
    if "Deadlock reached" in r["out"] and ls:
        return ls[-1] - 1, "no behaviour of the specification explains the event"
    raise ToolError("TLC failed on %s (rc=%s):\n%s" % (trace, r["rc"], "\n".join(
        x for x in r["out"].split("\n") if "Error" in x or "rror:" in x)[:1500] or r["out"][-1500:]))


class Violation(Exception):
    def __init__(self, prop, what, replay):
        self.prop, self.what, self.replay = prop, what, replay


def save_replay(prop, body):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def against_fresh(exe, tr):
    """A call that did not return at the end of a history: does it in a new process?"""
    evs = [x for x in open(tr).read().split("\n") if x]
    last = json.loads(evs[-1]) if evs else {}
    if "line" not in last or "@" in last["line"]:
        return False
    run_driver(exe, ["bg 0", last["line"]], tr + ".fresh")
    evs.append(open(tr + ".fresh").read().split("\n")[0])
    evs.append(json.dumps({"k": "rel", "r": "same", "ev": [len(evs) - 1, len(evs)]}))
    with open(tr, "w") as f:
        f.write("\n".join(evs) + "\n")
    return True


def validate(prop, exe, chunks, st, nshards=NCPU, font=None, profile="dev", keep_sample=2):
    """Run chunks on the real code, and have TLC judge the recorded traces."""
    if not chunks:
        return
    n = max(1, min(nshards, sum(len(c) + 200 * sum(ln.startswith("d ") for ln in c) for c in chunks) // 150 + 1))
    shards = shard_chunks(chunks, n)
    base = tempfile.mkdtemp(prefix="v-%s-" % prop, dir=OUT)

    def one(k):
        sh = shards[k]
        tr = os.path.join(base, "t%d.ndjson" % k)
        run_driver(exe, [ln for c in sh for ln in c], tr)
        fresh = prop == "C21" and against_fresh(exe, tr)
        bad = judge(prop, tr, font, st)
        if bad and fresh:
            bad = bad[0] - 2, "a call that returns in a new process does not return here"
        return k, tr, bad

    try:
        with cf.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(len(shards))))
        for k, tr, bad in res:
            if bad is None:
                if keep_sample and len(st.samples) < 4:
                    with open(tr) as f:
                        for ln in f:
                            if len(ln) < 1500:
                                st.samples.append({"profile": profile, "event": json.loads(ln)})
                                break
                continue
            i, msg = bad
            # find the chunk of event i
            c0 = 0
            for c in shards[k]:
                m = sum(map(is_event, c))
                if i < c0 + m:
                    break
                c0 += m
            evs = open(tr).read().split("\n")[c0:c0 + m]
            lines = [ln for ln in c if is_event(ln)]
            path = save_replay(prop, {"property": prop, "profile": profile, "message": msg, "scenario": c,
                                      "failing_line": lines[i - c0] if i - c0 < len(lines) else None,
                                      "recorded": [json.loads(x) for x in evs if x.strip()]})
            raise Violation(prop, msg + ": " + (lines[i - c0] if i - c0 < len(lines) else "?")[:300], path)
    finally:
        shutil.rmtree(base, ignore_errors=True)
