"""The design models behind each property: which module, which constants, what
is checked on it, and which slips it must be able to tell apart ("teeth").

They do not depend on the code, so a failure here is a mistake in the
specification (ToolError), never a violation of /repo."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, tempfile, threading, time
import vlib
from vlib import OUT, SPEC, ToolError

STOP = threading.Event()      # set when the verdict is already a violation

MC = dict(Width=12, Lines=9, RowPx=16, MaxU=60, NL=0, Unknown=9, MaxLen=2, MaxCalls=1, Rich=False)
REAL = dict(Width=336, Lines=536, RowPx=352, MaxU=1073741824, NL=10, Unknown=65533)
FONT3 = "Entries <- {0}Entries\n    Glyph <- {0}Glyph\n    MaxH <- {0}MaxH"
WORD = dict(WB=4, Words=2, Vis=7, Rows=3, MaxW=3, MaxHt=2, Fault="none")
LOOK = dict(Cps="{1, 2}", MaxC=3, MaxS=4, MaxListed=2, Fault="none")
CODE = dict(Size=3, WB=4, Borders="{0, 1, 2, 3}", Gutters="{0, 1, 3}", Fault="none")
WEB = dict(BB=1, Words=2, Lines=2, Px=6, Starts="{0, 3}", Fault="none")
THR = dict(Fault="none")
REG = dict(N=3, MaxFlaws=2, Fault="none")
GEO = dict(B=3, Fault="none")
DEMO = dict(REAL, MaxDemos=1, Fault="none")


def blit(inv=(), props=()):
    return dict(module="MCBlitstr", spec="MCSpec", consts=MC, raw=FONT3.format("M"), inv=("TypeOK",) + tuple(inv), props=props, deadlock=True)


def arith(*inv, fault=None):
    return dict(module="Arith", apalache=True, inv=inv, teeth=fault or [])


WORDBLIT = dict(module="WordBlit", spec="Spec", consts=WORD, inv=("Refines",))
WEBM = dict(module="Web", spec="Spec", consts=WEB, inv=("Shows", "SoFar"))
LOOKM = dict(module="Lookup", spec="Spec", consts=LOOK, inv=("FindsWhatIsMeant", "Sorted"))
CODEM = dict(module="MCCodegen", spec="Spec", consts=CODE, inv=("StepsAreTrim", "NoInkLost", "Tight", "BlankIsNothing", "WholeIsWhole", "SpaceIs4x2", "Fits", "PackIsLoop", "Unpacks", "CellsPartition"))
THRM = dict(module="Threads", spec="Spec", consts=THR, raw="Scripts <- ThreeThreads", inv=("AsIfAlone",))
REGM = dict(module="Regen", spec="Spec", consts=REG, inv=("Faithful", "NeverHalf"), props=("Ends",))
GEOM = dict(module="Geometry", spec="Spec", consts=GEO, inv=("Normalised", "OrderFree", "LimbOrder", "LimbsDiffer"))
FACTS = dict(module="FontFacts", spec="Spec", consts={}, font="all", inv=("Bounded", "NoneOrAll", "InCell", "Tight", "WholeCells", "Clusters", "FitsScreen", "NoDuplicates", "ReplacementIsLatin", "LatinAlike", "LowestIsSmall"))
DEMOM = dict(module="MCDemo", spec="Spec", consts=DEMO, raw=FONT3.format("T"), font="demo", inv=("ShowsPicture", "AsDocumented", "PaddingKept", "NothingCut", "InPaddedScreen"), deadlock=True)


# theorems (Proofs.tla, TLAPS) of a thorough run; each edit of Layout must break one
PROOFS = {
    "C01": ["InkInside", "InkRows"], "C02": ["ClearExact"], "C07": ["NewlineBelow", "NeverBack"], "C08": ["NoReach"],
    "C10": ["Reversible", "Commutes", "Associates", "Painted", "BackgroundFree"], "C12": ["NextIsDisjoint", "StaysBehind", "NeverOverlaps"],
    "C13": ["LayoutIgnoresHeight", "MovingMasks"], "C14": ["RectNormal"], "C21": ["Isolated"],
}
WORDPROOFS = {
    "C02": (["Clears"], ("b \\in Shl(All, 32 - a) /\\ b \\in Shr(All, 32 - z)", "b \\in Shl(All, 32 - a)")), "C04": (["Blits"], ("Room(x0) < wmax /\\", "Room(x0) < wmax - 1 /\\")),
    "C05": (["Unpacks"], ("IF w > InLow(o)", "IF w >= InLow(o) + 2")),
}
SLIPS = {
    "C01": ("Min(top + g.h, r.y1) - 1", "Min(top + g.h, r.y1)"), "C02": ("IF y >= r.y0 /\\ y < r.y1 THEN", "IF y >= r.y0 THEN"),
    "C07": ("Max(c.lh, LowestLine)), 1)", "LowestLine), 1)"), "C08": ("1 + w + 2) >= r.x1", "w + 2) >= r.x1"),
    "C10": ("SymDiff(A, B) == (A \\ B) \\cup (B \\ A)", "SymDiff(A, B) == A \\ B"), "C12": ("lh |-> Max(p.lh, MaxH(set))]", "lh |-> MaxH(set)]"),
    "C13": ("[c EXCEPT !.x = Max(@, r.x0)]", "[c EXCEPT !.x = Max(@, r.x0), !.y = Max(@, r.y0)]"), "C14": ("y1 |-> Max(ay, by)]", "y1 |-> by]"), "C21": ("n' = [n EXCEPT ![t] = @ + 1]", "n' = [u \\in T |-> n[u] + 1]"),
}


def faults(m, **kw):
    """Teeth: (constants, the invariants one of which must be refuted)."""
    return dict(m, teeth=[(dict(Fault=f), None) for f in kw["f"]] + [(c, None) for c in kw.get("c", [])])


# property -> design models of a quick run; "deep" replaces constants in a thorough run
PLAN = {
    "C01": [dict(blit(["Containment"]), reach=["NeverWraps", "NeverCropped"]), faults(WORDBLIT, f=["rightclip", "topclip"]),
            arith("Inside", "Indexes", fault=[("Inside", "CFullRow"), ("Indexes", "CNoGuard")])],
    "C02": [blit(["ClearExact"]), faults(WORDBLIT, f=["clearsame", "clearedge"]), arith("ClearSafe", fault=[("ClearSafe", "CLastWord")])],
    "C03": [dict(blit(["Total", "Deterministic"], ["Progress"]), reach=["NeverStalls"]),
            arith("NoOverflow", "Indexes", "Shifts", "ClearSafe", fault=[("NoOverflow", "CPlainAdd"), ("Shifts", "CAlways"), ("Indexes", "CNoGuard")])],
    "C04": [faults(WORDBLIT, f=["nohigh", "highbits", "edge", "rightclip", "topclip"]), arith("Complete", "Shifts")],
    "C05": [FACTS, dict(WORDBLIT)],
    "C06": [dict(blit(["Segmented", "GreedyLongest"]), reach=["NeverReplaces"]), faults(LOOKM, f=["collide", "shortest", "limit", "unsorted"])],
    "C07": [blit([], ["Advancing"]), arith("Saturation", "Projection", "Monotone", fault=[("Saturation", "CStrict")])],
    "C08": [dict(blit([], ["NoReach", "WrapsOnlyIfNeeded"]), reach=["NeverWraps"]), arith("Saturation", fault=[("Saturation", "CStrict")])],
    "C09": [blit(["Split"])],
    "C10": [blit(["PureXor", "Twice"])],
    "C11": [blit(["StyleFree", "EmojiAlways"]), FACTS],
    "C12": [blit(["Disjoint"]), FACTS],
    "C13": [blit(["MaskOnly"]), arith("Complete")],
    "C14": [faults(GEOM, f=["yonly", "together"])],
    "C15": [blit(["HintIsLineHeight"]), FACTS],
    "C16": [faults(DEMOM, f=["padded", "noclear"])],
    "C17": [faults(WEBM, f=["start", "wordstep", "bigendian", "mirror", "stride", "lastword", "bottomup"])],
    "C18": [faults(CODEM, f=["lastword"]), dict(LOOKM)],
    "C19": [faults(CODEM, f=["notop", "interior", "lastword", "border"])],
    "C20": [faults(LOOKM, f=["collide", "aliasblock", "unsorted", "limit", "shortest"])],
    "C21": [blit(["Function"]), faults(THRM, f=["scratch", "cursor", "memo", "counter"])],
    "C22": [arith("NoOverflow", "Shifts", "Projection", "Monotone", fault=[("NoOverflow", "CPlainAdd")]), dict(WORDBLIT)],
    "C23": [faults(REGM, f=["swallow", "quiet", "skip", "early", "guess", "default", "retry"])],
}
DEEP = {
    "MCBlitstr": [dict(MaxLen=3)],
    "WordBlit": [dict(Words=3, Vis=10, Rows=2, MaxHt=2, MaxW=4)],
    "Lookup": [dict(MaxListed=3)],
    "Regen": [dict(MaxFlaws=3), dict(N=5)],
    "MCCodegen": [dict(Size=4, Borders="{0, 1, 2, 3, 5}", Gutters="{0, 1, 2, 3, 5}")],
    "Web": [dict(Lines=2, Words=2, Px=7), dict(Lines=2, Words=2, Px=5, Starts="{1}")],
    "MCDemo": [dict(MaxDemos=3)],
}
# the two largest ones of MCBlitstr are shared out
DEEPER = {p: dict(Rich=True) for p in ("C01", "C02", "C08", "C11", "C12", "C13")}
DEEPER.update({p: dict(MaxCalls=2, MaxLen=1) for p in ("C03", "C06", "C07", "C09", "C10", "C15", "C21")})


def lit(v):
    return ("TRUE" if v else "FALSE") if isinstance(v, bool) else ('"%s"' % v if isinstance(v, str) and v.isalpha() else str(v))


def cfg_text(m, consts, inv, props):
    t = "SPECIFICATION %s\nCHECK_DEADLOCK %s\n" % (m["spec"], "TRUE" if m.get("deadlock") else "FALSE")
    if consts or m.get("raw"):
        t += "CONSTANTS\n" + "".join("    %s = %s\n" % (k, lit(v)) for k, v in consts.items())
        if m.get("raw"):
            t += "    " + m["raw"] + "\n"
    if inv:
        t += "INVARIANTS " + " ".join(inv) + "\n"
    if props:
        t += "PROPERTIES " + " ".join(props) + "\n"
    return t


def run_tlc(m, consts, inv, props, work, workers, timeout):
    cfg = os.path.join(work, "%s-%d.cfg" % (m["module"], len(os.listdir(work))))
    fd, cfg = tempfile.mkstemp(suffix=".cfg", dir=work)
    with os.fdopen(fd, "w") as f:
        f.write(cfg_text(m, consts, inv, props))
    envs = {}
    if m.get("font") == "all":
        envs["FONT"] = os.path.join(work, "all.json")
    elif m.get("font") == "demo":
        envs["FONT"] = os.path.join(work, "demo.json")
        envs["DOCPICS"] = os.path.join(vlib.VERIF, "font", "doc_pictures.json")
    return vlib.tlc(m["module"] + ".tla", cfg, envs, workers=workers, timeout=timeout, heap="6g")


def run_apalache(inv, cinit, work):
    out = tempfile.mkdtemp(prefix="ap-", dir=work)
    t0 = time.time()
    p = subprocess.run(["apalache-mc", "check", "--cinit=" + cinit, "--length=0", "--inv=" + inv, "--out-dir=" + out, "--run-dir=" + os.path.join(out, "r"), "Arith.tla"],
                       cwd=SPEC, env=vlib.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    m = re.search(r"The outcome is: (\w+)", p.stdout)
    if not m:
        raise ToolError("apalache failed on %s %s:\n%s" % (inv, cinit, p.stdout[-1500:]))
    return m[1], time.time() - t0


def run_tlapm(work, files, slip=None, stretch=3):
    """Let TLAPS prove the last module (with the first one edited: must fail)."""
    d = tempfile.mkdtemp(prefix="pr-", dir=work)
    for n in files:
        t = open(os.path.join(SPEC, n)).read()
        if slip and n == files[0]:
            if t.count(slip[0]) != 1:
                raise ToolError("%s has no single %r" % (n, slip[0]))
            t = t.replace(*slip)
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    t0 = time.time()
    p = subprocess.run(["tlapm", "--threads", "4", "--stretch", str(stretch), files[-1]], cwd=d, env=vlib.env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=2400)
    ok = re.search(r"All (\d+) obligations proved", p.stdout)
    bad = re.search(r"(\d+)/(\d+) obligations failed", p.stdout)
    if not ok and not bad:
        raise ToolError("tlapm: " + p.stdout[-1500:])
    return (int(ok[1]) if ok else 0), time.time() - t0


def describe(m, consts):
    return m["module"] + "(" + ", ".join("%s=%s" % kv for kv in consts.items() if kv[0] not in REAL or m["module"] == "MCBlitstr") + ")"


def run(prop, tier, st, workers=4):
    """Check the design models of a property; results go to st.models."""
    work = tempfile.mkdtemp(prefix="m-%s-" % prop, dir=OUT)
    thorough = tier == "thorough"
    try:
        jobs = []      # (function, kind)
        plan = PLAN.get(prop, [])
        if any(m.get("font") == "all" for m in plan):
            with open(os.path.join(work, "all.json"), "w") as f:
                json.dump({k: {"maxh": s["max_height"], "index": s["index"], "glyphs": s["glyphs"]} for k, s in vlib.golden().items()}, f)
        if any(m.get("font") == "demo" for m in plan):
            vlib.font_subset(vlib.demo_cps(), os.path.join(work, "demo.json"))

        def good(m, consts, inv, props):
            r = run_tlc(m, consts, inv, props, work, workers, 3000 if thorough else 500)
            if not vlib.tlc_ok(r):
                raise ToolError("design model %s: %s" % (describe(m, consts), "\n".join(x for x in r["out"].split("\n") if "rror" in x or "violated" in x)[:800]))
            st.models.append({"name": describe(m, consts), "checks": list(inv) + list(props), "states": r["distinct"], "transitions": r["generated"], "wall_s": round(r["wall"], 1)})

        def refuted(m, consts, inv, props, why):
            r = run_tlc(m, consts, inv, props, work, workers, 3000 if thorough else 500)
            if "is violated" not in r["out"] and "was violated" not in r["out"] and "is equal to FALSE" not in r["out"]:
                raise ToolError("design model %s is blind to %s: %s" % (m["module"], why, r["out"][-500:]))
            st.teeth.append("%s: %s" % (m["module"], why))

        def symbolic(inv, cinit, want):
            got, wall = run_apalache(inv, cinit, work)
            if got != want:
                raise ToolError("Arith!%s with %s: %s, expected %s" % (inv, cinit, got, want))
            if want == "NoError":
                st.models.append({"name": "Arith!%s(%s)" % (inv, cinit), "checks": [inv], "states": 0, "transitions": 0, "symbolic": True, "wall_s": round(wall, 1)})
            else:
                st.teeth.append("Arith!%s: %s" % (inv, cinit))

        files = ["Interleaving.tla"] if prop == "C21" else ["Layout.tla", "Proofs.tla"]
        words = ["WordProofs.tla"]

        def proved(files, names):
            n, wall = run_tlapm(work, files)
            if not n:
                n, wall = run_tlapm(work, files, stretch=12)
            if not n:
                raise ToolError("TLAPS does not prove " + files[-1])
            st.models.append({"name": files[-1][:-4] + "(TLAPS, unbounded, %d obligations)" % n, "checks": names, "states": 0, "transitions": 0, "symbolic": True, "wall_s": round(wall, 1)})

        def unproved(files, slip):
            if run_tlapm(work, files, slip, 1)[0]:
                raise ToolError("%s is blind to %r" % (files[-1], slip))
            st.teeth.append("%s: %s" % (files[-1][:-4], slip[1]))
        if thorough and prop in PROOFS:
            jobs += [(proved, files, PROOFS[prop]), (unproved, files, SLIPS[prop])]
        if thorough and prop in WORDPROOFS:
            jobs += [(proved, words, WORDPROOFS[prop][0]), (unproved, words, WORDPROOFS[prop][1])]
        for m in plan:
            if m.get("apalache"):
                for inv in m["inv"]:
                    for c in ("CInit64", "CInit32"):
                        jobs.append((symbolic, inv, c, "NoError"))
                for inv, c in m["teeth"] if thorough else m["teeth"][:1]:
                    jobs.append((symbolic, inv, c, "Error"))
                continue
            inv, props = tuple(m.get("inv", ())), tuple(m.get("props", ()))
            jobs.append((good, m, m["consts"], inv, props))
            if thorough:
                for c in DEEP.get(m["module"], []) + ([DEEPER[prop]] if m["module"] == "MCBlitstr" else []):
                    jobs.append((good, m, dict(m["consts"], **c), inv, props))
            teeth = m.get("teeth", [])
            for c, _ in teeth if thorough else teeth[:1]:
                jobs.append((refuted, m, dict(m["consts"], **c), inv, props, "Fault=" + c.get("Fault", "?")))
            reach = m.get("reach", [])
            for g in reach if thorough else reach[:1]:
                jobs.append((refuted, m, m["consts"], (g,), (), "reachability " + g))
        with cf.ThreadPoolExecutor(3 if not thorough else 2) as ex:
            for f in [ex.submit(lambda j: None if STOP.is_set() else j[0](*j[1:]), j) for j in jobs]:
                f.result()
    finally:
        shutil.rmtree(work, ignore_errors=True)
