"""C17 (web page), C18-C20 and C23 (font generator), C21 (histories and threads),
C22 (three builds): traces from more than the one driver, judged by the same
specification (spec/Trace.tla)."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, tempfile
import synth, vlib
from vlib import BUILD, NCPU, OUT, REPO, VERIF, Stats, ToolError, Violation

WASM_TOOLCHAIN = "1.98.0-x86_64-unknown-linux-gnu"


def sh(cmd, cwd, timeout=600, extra=None, room=None):
    e = vlib.env()
    e.update(extra or {})
    try:
        if room is not None:      # no file may become larger than this
            cmd = ["prlimit", "--fsize=%d:%d" % (room, room)] + cmd
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 97, "timeout: %s" % cmd


def judge_events(prop, lines, st, meta, font=None, fontfile=None):
    """Have TLC judge a list of trace lines; Violation if one is refused."""
    base = tempfile.mkdtemp(prefix="e-%s-" % prop, dir=OUT)
    try:
        tr = os.path.join(base, "t.ndjson")
        with open(tr, "w") as f:
            f.write("\n".join(lines) + "\n")
        bad = vlib.judge(prop, tr, font, st, fontfile=fontfile)
        if bad is None:
            if len(st.samples) < 4:
                s = [x for x in lines if len(x) < 1500]
                if s:
                    st.samples.append({"from": {k: v for k, v in meta.items() if k != "scenario"}, "event": json.loads(s[0])})
            return
        i, msg = bad
        ev = json.loads(lines[i])
        rel = [json.loads(lines[k - 1]) for k in ev.get("ev", [])] if ev["k"] == "rel" else []
        path = vlib.save_replay(prop, dict(meta, property=prop, message=msg, rerun=True, recorded=ev, related=rel))
        d = json.dumps(ev)
        for r in rel[:1]:
            d += " of " + json.dumps({k: v for k, v in r.items() if k != "delta"})
        raise Violation(prop, msg + ": " + d[:400], path)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def shards(groups, n):
    """Deal groups of trace lines (rel lines last, with offsets) to n lists."""
    out = [[0, k, []] for k in range(n)]
    for g in sorted(groups, key=lambda g: -sum(map(len, g))):
        s = min(out)
        s[0] += sum(map(len, g)) + 100
        s[2].append(g)
    return [s[2] for s in out if s[2]]


def judge_groups(prop, groups, st, meta, fontfile=None):
    """Groups: lists of events ending in rel events whose ev are offsets
    (negative, relative to the rel event)."""
    def one(sh_):
        lines = []
        for g in sh_:
            for ev in g:
                if isinstance(ev, tuple):      # ("same", [offsets])
                    n = len(lines) + 1
                    lines.append(json.dumps({"k": "rel", "r": ev[0], "ev": [n + o for o in ev[1]]}))
                else:
                    lines.append(ev)
        judge_events(prop, lines, st, meta, fontfile=fontfile)
    parts = shards(groups, max(1, min(NCPU, sum(len(g) for g in groups) // 150 + 1)))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(one, p) for p in parts]:
            f.result()


def run_lines(exe, lines, tag):
    base = tempfile.mkdtemp(prefix="r-", dir=OUT)
    try:
        tr = os.path.join(base, "t")
        vlib.run_driver(exe, lines, tr)
        return [x for x in open(tr).read().split("\n") if x]
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- generator
def codegen_binary(st=None):
    src = os.path.join(REPO, "codegen")
    key = vlib.tree_hash(os.path.join(src, "lib"), os.path.join(src, "main.go"), os.path.join(src, "go.mod"),
                         *[os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith((".go", ".sum")) and f != "main.go"])
    exe = os.path.join(BUILD, "cg-" + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        rc, out = sh(["go", "build", "-buildvcs=false", "-o", tmp, "."], src)
        if rc:
            raise ToolError("go build failed:\n" + out[-2000:])
        os.replace(tmp, exe)
        vlib._prune("cg-", 3)
    return exe


def tree_state(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            s = os.lstat(p)
            out[os.path.relpath(p, d)] = (hashlib.sha256(open(p, "rb").read()).hexdigest()[:24], s.st_mtime_ns)
    return out


def scratch_tree(name):
    """A copy of the library and the generator's data, to generate into."""
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix="gen-" + name + "-", dir=BUILD)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
    shutil.copy(os.path.join(REPO, "Cargo.toml"), d)
    os.mkdir(os.path.join(d, "codegen"))
    return d


def c18(prop, tier, seed, st):
    exe0 = vlib.build_driver("dev")
    cg = codegen_binary()
    d = scratch_tree("c18")
    font = os.path.join(OUT, "font18-%d.txt" % os.getpid())
    try:
        for n in os.listdir(os.path.join(REPO, "codegen")):
            p = os.path.join(REPO, "codegen", n)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(d, "codegen", n))
            else:
                shutil.copy(p, os.path.join(d, "codegen"))
        cwd = os.path.join(d, "codegen")
        ok, dry = True, set()
        before = tree_state(d)
        for args in ([], ["--help"], ["-write"], ["write"], ["--write=1"], ["--writ"], ["--dry-run"], [""], ["--write", "--help"], ["x", "--write"]):
            rc, out = sh([cg] + args, cwd, 60)
            after = tree_state(d)
            dry |= {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
            if dry:
                break
        runs = []
        for k in range(3 if tier == "quick" else 6):
            rc, out = sh([cg, "--write"], cwd, 300)
            ok = ok and rc == 0
            runs.append({k: v[0] for k, v in tree_state(d).items()})
            if k > 0 and runs[-1] != runs[0]:
                break
        gen = {k: v for k, v in runs[0].items() if before.get(k, ("",))[0] != v or k.startswith("src/fonts/")}
        second = {k: v for k, v in runs[-1].items() if k in gen or runs[0].get(k) != v}
        ev = {"k": "gen", "ok": ok, "built": True, "dry": sorted(dry), "first": sorted(map(list, gen.items())), "second": sorted(map(list, second.items())), "why": out[-300:] if not ok else ""}
        exe1 = None
        if ok:
            try:
                exe1 = vlib.build_driver("dev", repo=d, out=os.path.join(d, "drv"))
            except ToolError as x:
                ev["built"], ev["why"] = False, str(x)[-600:]
        judge_events(prop, [json.dumps(ev)], st, {"what": "generator runs"})
        # the same calls on the shipped fonts and on the regenerated ones
        vlib.font_text(font)
        m = 1 if tier == "quick" else 10
        chunks = vlib.gen_chunks(exe0, font, seed, [("glyph_all", 0), ("scalar", 30 * m), ("sequence", 1500 * m), ("text", 150 * m), ("glyph_style", 400 * m), ("crop_right", 300 * m)])
        both = run_pair(chunks, [exe0, exe1])
        st.extra["fonts_compared"] = len(both)
        judge_groups(prop, both, st, {"what": "shipped fonts against regenerated fonts"})
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(font):
            os.remove(font)


def run_pair(chunks, exes, runner=None):
    """Run the same chunks on several builds; one group per call."""
    chunks = [[ln for ln in c if not ln.startswith("r ")] for c in chunks]
    n = min(NCPU, max(1, len(chunks) // 50))
    parts = [chunks[k::n] for k in range(n)]
    groups = []

    def one(part):
        lines = [ln for c in part for ln in c]
        recs = [(runner or run_lines)(e, lines, "") for e in exes]
        out = []
        m = min(len(r) for r in recs)
        for i in range(m):
            g = [r[i] for r in recs]
            out.append(g + [("same", [-(len(recs) - j) for j in range(len(recs))])])
        return out, [len(r) for r in recs]
    with cf.ThreadPoolExecutor(n) as ex:
        for out, lens in ex.map(one, parts):
            groups += out
    return groups


def synthetic(prop, tier, seed, st, flavour, n):
    vlib.build_driver("dev")      # the tree itself must build
    cg = codegen_binary()

    def one(k):
        s = seed * 1000 + k
        d = scratch_tree(prop.lower())
        try:
            font = synth.make(os.path.join(d, "codegen"), s, flavour)
            meta = {"what": "synthetic font", "flavour": flavour, "font_seed": s}
            ev = {"k": "gen", "ok": True, "built": True, "dry": [], "first": [], "second": [], "why": ""}
            if k % 2:       # into an empty folder, or over the (longer) fonts that are there
                for f in os.listdir(os.path.join(d, "src", "fonts")):
                    os.remove(os.path.join(d, "src", "fonts", f))
            rc, out = sh([cg, "--write"], os.path.join(d, "codegen"), 120)
            ev["ok"], ev["why"] = rc == 0, out[-400:] if rc else ""
            exe = None
            if rc == 0:
                try:
                    exe = vlib.build_driver("dev", repo=d, out=os.path.join(d, "drv"))
                except ToolError as x:
                    ev["built"], ev["why"] = False, str(x)[-600:]
            fj = os.path.join(d, "font.json")
            synth.font_json(font, fj)
            lines = [json.dumps(ev)]
            if exe:
                chunks = synth.scenarios(font, s, flavour, 60 if flavour == "sprite" else 260)
                lines += run_lines(exe, [ln for c in chunks for ln in c], "")
            judge_events(prop, lines, st, meta, fontfile=fj)
            return sum(len(f["index"]) for f in font.values())
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        st.extra["synthetic_fonts"] = n
        st.extra["synthetic_clusters"] = sum(ex.map(one, range(n)))


def c19(prop, tier, seed, st):
    synthetic(prop, tier, seed, st, "sprite", 16 if tier == "quick" else 160)


def c20(prop, tier, seed, st):
    synthetic(prop, tier, seed, st, "index", 16 if tier == "quick" else 160)


def c23(prop, tier, seed, st):
    """Every flaw of every glyph set, and pairs of them, as Regen's Init says."""
    cg = codegen_binary()
    fonts = 8 if tier == "quick" else 64
    pairs = 120 if tier == "quick" else 400

    def one(k):
        s = seed * 1000 + k
        rng = random.Random(s)
        base = tempfile.mkdtemp(prefix="gen-c23-", dir=BUILD)
        lines = []

        def run(flaws, old):
            d = os.path.join(base, "r")
            os.makedirs(os.path.join(d, "src", "fonts"))
            try:
                shutil.copytree(os.path.join(base, "codegen"), os.path.join(d, "codegen"))
                what, outs = [], {}
                for n, t in enumerate(targets, 1):
                    p = os.path.join(d, "codegen", t)
                    if old:
                        with open(p, "w") as f:
                            f.write("// %d\n" % n * rng.choice([1, 30000]))
                room = None
                for n, kind in flaws:
                    if kind == "full":
                        room = rng.choice([0, 1, 1000, 4096, min(map(len, good)) - 1])
                        what.append("no file longer than %d" % room)
                        continue
                    what.append(synth.flaw(os.path.join(d, "codegen"), n, kind, rng))
                for n, t in enumerate(targets, 1):
                    p = os.path.normpath(os.path.join(d, "codegen", t))
                    outs[n] = (p, None if os.path.islink(p) or not os.path.exists(p) else open(p, "rb").read())
                rc, out = sh([cg, "--write"], os.path.join(d, "codegen"), 60, room=room)
                seen = []
                for n, (p, before) in outs.items():
                    now = None if os.path.islink(p) or not os.path.exists(p) else open(p, "rb").read()
                    seen.append("new" if good and now == good[n - 1] else "old" if now == before else "new" if not good and now else "cut")
                texts = [open(p, "rb").read() if os.path.isfile(p) else b"" for p, _ in outs.values()] if not good else good
                return {"k": "regen", "ok": rc != 97, "flaws": flaws, "exit": "failed" if rc else "ok", "out": seen, "what": what,
                        "why": out.strip().split("\n")[0][-200:] if rc else ""}, texts
            finally:
                shutil.rmtree(d, ignore_errors=True)
        try:
            synth.make(os.path.join(base, "codegen"), s, rng.choice(["sprite", "index"]))
            targets = [g["rustout"] for g in json.load(open(os.path.join(base, "codegen", "config.json")))["glyphSets"]]
            good = None
            ev, texts = run([], False)
            if ev["out"] == ["new"] * len(targets) and ev["exit"] == "ok":
                good = texts
            lines.append(ev)
            if good:
                sets = range(1, len(targets) + 1)
                kinds = synth.READ_KINDS + synth.WRITE_KINDS
                todo = [[]] + [[[0, "config"]]] * 8 + [[[n, q]] for n in sets for q in kinds for _ in range(2 if q in ("hex", "alias", "cell", "write") else 1)]
                todo += [[[n, "full"] for n in sets]] * 5
                for _ in range(pairs):
                    a, b = rng.sample(sets, 2)
                    todo.append([[a, rng.choice(kinds)], [b, rng.choice(kinds)]])
                lines += [run(f, i % 3 > 0)[0] for i, f in enumerate(todo)]
            judge_events(prop, [json.dumps(x) for x in lines], st, {"what": "generator on flawed input", "font_seed": s})
            return len(lines)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        st.extra["synthetic_fonts"] = fonts
        st.extra["flawed_runs"] = sum(ex.map(one, range(fonts)))


# ---------------------------------------------------------------- wasm
def build_wasm(crate, artefact, *deps):
    """Build a wasm32 crate in a scratch target directory."""
    key = vlib.tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), *deps)
    out = os.path.join(BUILD, "wasm-%s-%s.wasm" % (artefact, key))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        t = tempfile.mkdtemp(prefix="wt-", dir=BUILD)
        try:
            rc, log = sh(["cargo", "build", "-q", "--release", "--offline", "--target", "wasm32-unknown-unknown", "--target-dir", t],
                         crate, 600, {"RUSTUP_TOOLCHAIN": WASM_TOOLCHAIN})
            if rc:
                raise ToolError("wasm build failed:\n" + log[-2500:])
            tmp = out + ".%d" % os.getpid()
            shutil.copy(os.path.join(t, "wasm32-unknown-unknown", "release", artefact + ".wasm"), tmp)
            os.replace(tmp, out)
        finally:
            shutil.rmtree(t, ignore_errors=True)
        vlib._prune("wasm-" + artefact, 3)
    return out


def wasm_driver():
    src = os.path.join(VERIF, "harness", "wasm")
    work = tempfile.mkdtemp(prefix="wd-", dir=BUILD)
    try:
        d = os.path.join(work, "wasm")
        shutil.copytree(src, d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        t = open(os.path.join(d, "Cargo.toml")).read().replace('path = "../../../repo"', 'path = "%s"' % REPO)
        open(os.path.join(d, "Cargo.toml"), "w").write(t)
        return build_wasm(d, "wasmdrv", os.path.join(src, "src"), os.path.join(src, "Cargo.toml"))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def demo_wasm():
    """wasm_demo, built in a copy (cargo may want to touch its lock file)."""
    src = os.path.join(REPO, "wasm_demo")
    work = tempfile.mkdtemp(prefix="wd-", dir=BUILD)
    try:
        d = os.path.join(work, "wasm_demo")
        shutil.copytree(src, d, ignore=shutil.ignore_patterns("target"))
        t = re.sub(r'path\s*=\s*"\.\./?"', 'path = "%s"' % REPO, open(os.path.join(d, "Cargo.toml")).read())
        open(os.path.join(d, "Cargo.toml"), "w").write(t)
        return build_wasm(d, "demo", os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), os.path.join(src, ".cargo"))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def c17(prop, tier, seed, st):
    os.makedirs(BUILD, exist_ok=True)
    wasm = demo_wasm()
    src = os.path.join(REPO, "wasm_demo")
    html = open(os.path.join(src, "index.html"), encoding="utf-8").read()
    ids = re.findall(r"<canvas[^>]*\bid\s*=\s*[\"']?([\w-]+)", html)
    scripts = re.findall(r"<script[^>]*\bsrc\s*=\s*[\"']?([\w./-]+)", html)
    rng = random.Random(seed)
    work = tempfile.mkdtemp(prefix="page-", dir=OUT)
    try:
        cases = []
        n = 40 if tier == "quick" else 400
        styles = ["noise", "noise", "sparse", "dense", "clear", "ink", "pad", "column"]
        todo = [dict(wasm=wasm, streaming=True), dict(wasm=wasm, streaming=False)]
        for k in range(n):
            ptr = rng.choice([0, 4, 8, 1 << 20, 65536 - 4, 4 * rng.randrange(1 << 19), 4 * rng.randrange(1 << 8)])
            todo.append(dict(fake=dict(seed=rng.randrange(2**31), ptr=ptr, style=styles[k % len(styles)]), streaming=rng.random() < .5))
        for k, c in enumerate(todo):
            d = os.path.join(work, "p%d" % k)
            os.mkdir(d)
            for f in os.listdir(src):
                if f.endswith((".js", ".mjs")):
                    shutil.copy(os.path.join(src, f), d)
            open(os.path.join(d, "package.json"), "w").write('{"type":"module"}')
            cases.append(dict(c, dir=d, script=(scripts or ["main.js"])[0], canvases=ids or ["screen"]))
        parts = [cases[k::NCPU] for k in range(NCPU)]

        def one(k):
            cj, out = os.path.join(work, "c%d.json" % k), os.path.join(work, "o%d" % k)
            json.dump(parts[k], open(cj, "w"))
            rc, log = sh(["node", os.path.join(VERIF, "harness", "web", "page.mjs"), cj, out], work, 300)
            if rc:
                raise ToolError("page run failed: " + log[-1500:])
            lines = [x for x in open(out).read().split("\n") if x]
            judge_events(prop, lines, st, {"what": "web page", "cases": [{k: v for k, v in c.items() if k != "dir"} for c in parts[k]]})
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(one, k) for k in range(NCPU)]:
                f.result()
        st.extra["pages_loaded"] = len(cases)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- builds
def c22(prop, tier, seed, st):
    font = os.path.join(OUT, "font22-%d.txt" % os.getpid())
    vlib.font_text(font)
    try:
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(vlib.build_driver, "dev"), ex.submit(vlib.build_driver, "release"), ex.submit(wasm_driver)]
            dev, rel, wasm = [f.result() for f in fs]
        m = 1 if tier == "quick" else 10
        chunks = vlib.gen_chunks(dev, font, seed, [(f, n * m) for f, n in (
            ("anyrect", 700), ("narrow", 500), ("extreme", 900), ("text", 150), ("chain", 120), ("sequence", 300), ("crop_right", 300), ("crop_vert", 300),
            ("newlines", 500), ("clear_any", 500), ("clear_grid", 300), ("glyph_style", 300), ("rebg", 200), ("wrap_edge", 300), ("scalar", 2), ("history", 30))])
        chunks = [c for c in chunks if not any(ln.split()[0] not in ("bg", "p", "c", "r", "snap") for ln in c)]
        # (structured backgrounds are made by library calls: random ones instead)
        def plain(ln):
            t = re.sub(r"^bg k", "bg r", ln).split()
            # and numbers that a 32-bit machine has, whose sums it has too
            for i, x in enumerate(t):
                if x.startswith("B"):
                    bit, k = x[1:].split(".")
                    t[i] = "B%d.%s" % (min(int(bit), 30 if t[0] == "p" and i == 7 else 31), k)
            return " ".join(t)
        chunks = [[plain(ln) for ln in c if ln.split()[0] != "snap"] for c in chunks]
        # every cluster of the font once, a hundred to a call
        rng = random.Random(seed)
        for k, (name, s) in enumerate(vlib.golden().items()):
            cl = [c for c, _ in s["index"]]
            rng.shuffle(cl)
            for i in range(0, len(cl), 100):
                st_ = {"Small": 0, "Regular": 1, "Bold": 2}.get(name, rng.randrange(3))
                chunks.append(["bg r%d" % rng.randrange(2**31), "p 0 0 336 536 %d %d %d 0 %s" % (st_, rng.randrange(40), rng.randrange(20), ",".join(str(x) for c in cl[i:i + 100] for x in c))])
        for name in ("sample_text", "short_greeting", "goose_poem"):
            chunks.append(["bg %s" % ("s" if name == "goose_poem" else "0"), "d " + name])
        # inputs on which a build and the transcribed specification differ
        for profile, exe in (("dev", dev), ("release", rel)):
            info, fl, heads, evs = vlib.scout(exe, font, seed + 7, [(f, n * (4 if tier == "thorough" else 1)) for f, n in (
                ("extreme", 200000), ("anyrect", 300000), ("narrow", 300000), ("text", 100000), ("glyph_align", 0), ("crop_right", 0), ("crop_vert", 0),
                ("clear_any", 200000), ("newlines", 100000), ("scalar", 5000))], seconds=15 if tier == "quick" else 120, tag="C22")
            st.scouted += info["events"]
            st.flagged += info["flagged"]
            import check
            pick = [fl[i] for i in check.select(fl, heads, 150)]
            st.flag_judged += len(pick)
            chunks += [[plain(ln) for ln in c if ln.split()[0] in ("bg", "p", "c", "d")] for c in pick]

        def runner(e, lines, tag):
            return run_wasm(e, lines) if e.endswith(".wasm") else run_lines(e, lines, tag)
        groups = run_pair(chunks, [dev, rel, wasm], runner)
        st.extra["calls_in_three_builds"] = len(groups)
        judge_groups(prop, groups, st, {"what": "debug, release and wasm32 builds"})
    finally:
        os.remove(font)


def run_wasm(wasm, lines):
    base = tempfile.mkdtemp(prefix="rw-", dir=OUT)
    try:
        sp, out = os.path.join(base, "s"), os.path.join(base, "o")
        open(sp, "w").write("\n".join(lines) + "\n")
        rc, log = sh(["node", os.path.join(VERIF, "harness", "web", "wasmdrv.mjs"), wasm, sp, out], base, 300)
        if rc:
            raise ToolError("wasm driver failed: " + log[-1500:])
        return [x for x in open(out).read().split("\n") if x]
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- histories
def c21(prop, tier, seed, st):
    import check
    font = os.path.join(OUT, "font21-%d.txt" % os.getpid())
    vlib.font_text(font)
    m = 1 if tier == "quick" else 10
    try:
        for profile in ("dev", "release"):
            exe = vlib.build_driver(profile)
            # 1. the same call again, after other calls and on other buffers
            chunks = vlib.gen_chunks(exe, font, seed, [("again", 700 * m)])
            vlib.validate(prop, exe, chunks, st, profile=profile)
            # 2. the same calls in several threads at once
            for rep in range(2 * m):
                lines = [ln for c in vlib.gen_chunks(exe, font, seed + 31 * rep + (profile == "dev"), [("text", 40), ("sequence", 120), ("glyph_style", 120), ("anyrect", 60), ("newlines", 30), ("long", 1)])
                         for ln in c if ln.startswith("p ") and "@" not in ln]
                base = tempfile.mkdtemp(prefix="th-", dir=OUT)
                try:
                    tr = os.path.join(base, "t")
                    try:
                        vlib.run_driver(exe, lines, tr, mode=("threads", "8"))
                    except ToolError as x:
                        # do the same calls return when they are made one after the other?
                        alone = run_lines(exe, lines, "")
                        if len(alone) == len(lines) and json.loads(alone[-1]).get("line") is None:
                            judge_groups(prop, [[alone[0], vlib.dead_event(lines[0], 97, str(x)), ("same", [-2, -1])]], st,
                                         {"what": "8 threads: calls do not return", "profile": profile})
                        continue
                    ev = [x for x in open(tr).read().split("\n") if x]
                finally:
                    shutil.rmtree(base, ignore_errors=True)
                # cut into groups of 9 (8 threads + relation)
                groups = [ev[k:k + 8] + [("same", list(range(-8, 0)))] for k in range(0, len(ev), 9)]
                judge_groups(prop, groups, st, {"what": "8 threads", "profile": profile})
                st.extra["threaded_calls"] = st.extra.get("threaded_calls", 0) + 8 * len(groups)
            # 3. a call deep in a long run against the same call in a new process
            info, fl, heads, evs = vlib.scout(exe, font, seed + 11, [(f, n * m) for f, n in (
                ("text", 300000), ("sequence", 1000000), ("glyph_align", 0), ("anyrect", 300000), ("chain", 100000), ("clear_any", 200000), ("newlines", 100000), ("glyph_style", 0), ("repeat", 240))],
                limit=40, seconds=15 if tier == "quick" else 150, tag="C21")
            st.scouted += info["events"]
            st.flagged += info["flagged"]
            groups = []
            idx = sorted(range(len(fl)), key=lambda i: sum(map(len, fl[i])))[:60]
            for i in idx:
                if heads[i].endswith(" hang"):     # in a long run, with other threads: and in a new process?
                    lines = [ln for ln in fl[i] if ln.split()[0] in ("bg", "p", "c", "d")]
                    fresh = run_lines(exe, lines, "")
                    calls = [ln for ln in lines if vlib.is_event(ln)]
                    if len(fresh) == len(calls) and json.loads(fresh[-1]).get("line") is None:
                        groups.append([vlib.dead_event(calls[0], 97, "no progress for 24 s in a long run"), fresh[0], ("same", [-2, -1])])
                    continue
                if not evs[i]:
                    continue
                lines = [ln for ln in fl[i] if not ln.startswith("r ")]
                calls = [ln for ln in lines if vlib.is_event(ln)]
                if len(lines) < 3000:
                    fresh = run_lines(exe, lines, "")
                else:
                    fresh, calls = [], []
                for op, ev in evs[i]:
                    if op.startswith("p ") and "@" not in op:      # the call alone in a new process
                        alone = run_lines(exe, ["bg 0", op], "")
                        if alone:
                            groups.append([ev, alone[0], ("same", [-2, -1])])
                for op, ev in evs[i]:
                    ks = [k for k, ln in enumerate(calls) if ln == op]
                    if len(ks) == 1 and ks[0] < len(fresh):
                        groups.append([ev, fresh[ks[0]], ("same", [-2, -1])])
            st.flag_judged += len(groups)
            if groups:
                judge_groups(prop, groups, st, {"what": "long run against fresh process", "profile": profile})
            # 4. the same calls in two orders, each in a process of its own
            calls = [c for c in vlib.gen_chunks(exe, font, seed + 5, [("sequence", 600 * m), ("text", 100 * m), ("anyrect", 200 * m), ("clear_any", 200 * m), ("crop_vert", 200 * m)])]
            calls = [[ln for ln in c if not ln.startswith("r ")] for c in calls]
            order = list(range(len(calls)))
            random.Random(seed).shuffle(order)
            pos, flat = {}, []
            a = run_lines(exe, [ln for c in calls for ln in c], "")
            b = run_lines(exe, [ln for k in order for ln in calls[k]], "")
            at, off = 0, {}
            for k in range(len(calls)):
                off[k] = at
                at += sum(map(vlib.is_event, calls[k]))
            at, groups = 0, []
            for k in order:
                for j in range(sum(map(vlib.is_event, calls[k]))):
                    if at < len(b) and off[k] + j < len(a):
                        groups.append([a[off[k] + j], b[at], ("same", [-2, -1])])
                    at += 1
            judge_groups(prop, groups, st, {"what": "two orders", "profile": profile})
            st.extra["reordered_calls"] = st.extra.get("reordered_calls", 0) + len(groups)
    finally:
        os.remove(font)


CHECKS = {"C17": c17, "C18": c18, "C19": c19, "C20": c20, "C23": c23, "C21": c21, "C22": c22}
