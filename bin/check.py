#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's working tree: see DESIGN.md. Exit 0: held on
everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import generate, models, vlib
from vlib import OUT, SPEC, VERIF, Stats, ToolError, Violation

# family:count for TLC (t) and for the bulk search (s; 0 = whole grid).
# Thorough multiplies the counts of t and s.
PAINT = {
    "C01": dict(profiles=("dev", "release"),
                t=[("anyrect", 2500), ("narrow", 2500), ("crop_right", 1500), ("crop_vert", 1500), ("extreme", 400), ("text", 300), ("chain", 250)],
                s=[("anyrect", 600000), ("narrow", 600000), ("crop_right", 0), ("crop_vert", 0), ("extreme", 200000), ("text", 200000),
                   ("chain", 100000), ("glyph_align", 0), ("scalar", 8000), ("wrap_edge", 0)]),
    "C02": dict(t=[("clear_grid", 6000), ("clear_any", 3000), ("history", 250)],
                s=[("clear_grid", 0), ("clear_any", 1000000), ("history", 60000)]),
    "C03": dict(profiles=("dev", "release"),
                t=[("extreme", 1200), ("anyrect", 3000), ("newlines", 1500), ("text", 600), ("clear_any", 1500), ("sequence", 1200),
                   ("rect", 300), ("style_num", 300), ("long", 6), ("demo_any", 12)],
                s=[("extreme", 400000), ("anyrect", 800000), ("newlines", 300000), ("text", 300000), ("scalar", 0), ("clear_any", 500000),
                   ("sequence", 400000), ("crop_right", 0), ("crop_vert", 0), ("huge", 60), ("long", 300), ("chain", 100000), ("wrap_edge", 0)]),
    "C04": dict(t=[("glyph_align", 6000), ("crop_right", 3000), ("crop_vert", 4000), ("odd_single", 2500)],
                s=[("glyph_align", 0), ("crop_right", 0), ("crop_vert", 0), ("odd_single", 1000000), ("glyph_all", 0), ("narrow", 300000)]),
    "C05": dict(t=[("glyph_all", 0), ("scalar", 30)],
                s=[("glyph_all", 0), ("scalar", 0), ("glyph_align", 0), ("glyph_style", 0)]),
    "C06": dict(t=[("sequence", 5000), ("text", 900), ("long", 4), ("huge", 1), ("chain", 300)],
                s=[("sequence", 2000000), ("text", 400000), ("long", 600), ("scalar", 0), ("huge", 60), ("overlap", 50000)]),
    "C07": dict(t=[("advance", 5000), ("newlines", 2500), ("chain", 900), ("text", 400), ("extreme", 400)],
                s=[("advance", 0), ("newlines", 600000), ("chain", 300000), ("text", 300000), ("glyph_align", 0), ("extreme", 100000), ("long", 300)]),
    "C08": dict(t=[("wrap_edge", 4000), ("narrow", 2500), ("text", 500), ("chain", 250)],
                s=[("wrap_edge", 0), ("narrow", 1000000), ("text", 500000), ("chain", 200000), ("odd_single", 400000)]),
    "C09": dict(t=[("split", 1800)], s=[("split", 500000), ("chain", 100000), ("text", 200000), ("newlines", 200000)]),
    "C10": dict(t=[("rebg", 1500), ("order", 900)], s=[("rebg", 400000), ("order", 200000), ("glyph_align", 0), ("text", 100000)]),
    "C11": dict(t=[("glyph_style", 2600), ("text_style", 900)], s=[("glyph_style", 0), ("text_style", 400000), ("text", 200000), ("scalar", 8000)]),
    "C12": dict(t=[("overlap", 1200)], s=[("overlap", 400000), ("text", 300000), ("advance", 0), ("long", 300)]),
    "C13": dict(t=[("mask", 1800)], s=[("mask", 400000), ("crop_vert", 0), ("anyrect", 300000), ("text", 200000)]),
    "C14": dict(t=[("rect", 2500), ("eq", 2500), ("screen", 1)], s=[]),
    "C15": dict(t=[("style_num", 2500), ("hint", 2200), ("style_all", 1)], s=[("hint", 100000), ("advance", 0)]),
    "C16": dict(t=[("demos", 2), ("demo", 24)], s=[("demo", 400000)]),
}


def extra_family(name, n, rng):
    """Families too small to live in the driver."""
    out = []
    bgs = ["bg 0", "bg ffffffff", "bg s", "bg a5a5a5a5"] + ["bg r%d" % rng.randrange(10**6) for _ in range(8)]
    names = ["sample_text", "short_greeting", "goose_poem"]
    if name == "screen":
        return [["F"]]
    if name == "style_all":
        return [["Y %d" % k for k in range(0, 600)] + ["Y M%d" % k for k in range(0, 40)] +
                ["Y %d" % ((1 << b) + d) for b in range(10, 64) for d in (-1, 0, 1, 2)]]
    if name == "demo_any":
        for _ in range(n):
            out.append([rng.choice(bgs), "d " + rng.choice(names)])
        return out
    if name == "demos":
        # every demo over every kind of background, and after every demo
        for d in names:
            for b in bgs[:4 + 2 * n]:
                out.append([b, "d " + d])
            for e in names:
                out.append([rng.choice(bgs), "d " + e, "d " + d, "d " + d])
        for _ in range(n):
            c = [rng.choice(bgs)]
            for _ in range(6):
                c.append("d " + rng.choice(names))
                if rng.random() < .3:
                    c.append("c 3 5 %d %d t" % (rng.randrange(4, 337), rng.randrange(6, 537)))
            out.append(c)
        return out
    return None


def paint_property(prop, tier, seed, st):
    cfg = PAINT[prop]
    mult = 12 if tier == "thorough" else 1
    font = os.path.join(OUT, "font-%d.txt" % os.getpid())
    vlib.font_text(font)
    try:
        profiles = cfg.get("profiles", ("dev",))
        for pi, profile in enumerate(profiles):
            exe = vlib.build_driver(profile)
            own = [(f, n) for f, n in cfg["t"] if extra_family(f, 0, random.Random(0)) is None]
            oth = [(f, n) for f, n in cfg["t"] if (f, n) not in own]
            share = 1.0 if len(profiles) == 1 else (0.7 if pi == 0 else 0.3)
            chunks = vlib.gen_chunks(exe, font, seed + 1000 * pi, [(f, max(1, int(n * mult * share)) if n else 0) for f, n in own])
            for f, n in oth:
                chunks += extra_family(f, n * (mult if f != "demos" else min(mult, 4)), random.Random(seed * 7 + pi))
            # bulk search for candidate inputs
            if cfg["s"]:
                info, fl, heads, evs = vlib.scout(exe, font, seed + 500 + 1000 * pi, [(f, n * (6 if tier == "thorough" else 1)) for f, n in cfg["s"]],
                                                  seconds=25 if tier == "quick" else 240, tag=prop)
                st.scouted += info["events"]
                st.flagged += info["flagged"]
                if info.get("crash"):
                    st.extra["scout_crash"] = info["crash"]
                if fl:
                    pickd = select(fl, heads, 240)
                    st.flag_judged += len(pickd)
                    vlib.validate(prop, exe, [fl[i] for i in pickd], st, profile=profile)
            vlib.validate(prop, exe, chunks, st, profile=profile)
        generate.run(prop, tier, seed, st)
    finally:
        if os.path.exists(font):
            os.remove(font)


def select(chunks, heads, n):
    """At most n flagged chunks: small ones, from every family and reason."""
    groups = {}
    for i, h in enumerate(heads):
        t = h.split(" ", 2)
        groups.setdefault((t[0], t[2]), []).append(i)
    for g in groups.values():
        g.sort(key=lambda i: sum(map(len, chunks[i])))
    out = []
    while groups and len(out) < n:
        for k in list(groups):
            if groups[k]:
                out.append(groups[k].pop(0))
            else:
                del groups[k]
    return out[:n]


def known_findings(prop, seed, st):
    """Re-run the inputs of the recorded findings; report those that still fail."""
    exe = vlib.build_driver("dev")
    still = []
    for ln in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\w+) input=(\d):([\d,]+) (.*)", ln)
        if m and m[1] == prop:
            try:
                vlib.validate(prop, exe, [["bg ffffffff", "p 0 0 336 536 %s 10 10 0 %s" % (m[2], m[3])]], Stats(), nshards=1)
            except Violation:
                print("KNOWN-FINDING: property=%s input=%s:%s %s" % (prop, m[2], m[3], m[4]))
                still.append(m[2] + ":" + m[3])
    st.extra["known_findings_reproduced"] = still


def c06(prop, tier, seed, st):
    known_findings(prop, seed, st)
    paint_property(prop, tier, seed, st)


CHECKS = {p: paint_property for p in PAINT}
CHECKS["C06"] = c06
import extra
CHECKS.update(extra.CHECKS)


def write_evidence(prop, tier, seed, st, wall, violations):
    cov = {
        "states": st.distinct + sum(m["states"] for m in st.models),
        "transitions": st.generated + sum(m["transitions"] for m in st.models),
        "traces_validated_against_impl": st.shards,
        "events_validated_against_impl": st.events,
        "relations_validated": st.rels,
        "bulk_compared_calls": st.scouted,
        "bulk_candidates": st.flagged,
        "bulk_candidates_judged_by_tlc": st.flag_judged,
        "design_models": st.models,
        "design_model_teeth": st.teeth,
        "samples": st.samples[:4],
    }
    cov.update(st.extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["TLC, the JSON/IO community modules and the recorder (harness/driver) are trusted",
                          "font constants are derived from codegen/src_data of the pinned commit (font/golden.json.gz)"],
          "wall_s": round(wall, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(OUT, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        return replay(a.prop, a.replay)
    st = Stats()
    t0 = time.time()
    # the design models do not depend on the code: check them alongside
    ex = cf.ThreadPoolExecutor(1)
    design = ex.submit(models.run, a.prop, a.tier, st)
    try:
        CHECKS[a.prop](a.prop, a.tier, seed, st)
        design.result()
        rc = 0
    except Violation as v:
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (a.prop, v.replay))
        rc = 1
    except ToolError as x:
        print("CHECK FAILED: %s" % x)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    if rc == 1 and not design.done():
        models.STOP.set()
    ex.shutdown(wait=True)
    write_evidence(a.prop, a.tier, seed, st, time.time() - t0, int(rc == 1))
    if rc == 0:
        print("ok %s %s: %d recorded calls and %d relations accepted by TLC in %d traces (%d states), %d calls compared in bulk, %d design models (%d states), %.1f s" % (
            a.prop, a.tier, st.events, st.rels, st.shards, st.distinct, st.scouted, len(st.models), sum(m["states"] for m in st.models), time.time() - t0))
    return rc


def replay(prop, path):
    body = json.load(open(path))
    st = Stats()
    try:
        if body.get("rerun"):     # recorded from several builds: run the check again
            CHECKS[prop](prop, "quick", int(os.environ.get("VERIF_SEED", "1") or 1), st)
            print("accepted")
            return 0
        exe = vlib.build_driver(body.get("profile", "dev"))
        vlib.validate(prop, exe, [body["scenario"]], st)
    except Violation as v:
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    print("accepted")
    return 0


if __name__ == "__main__":
    sys.exit(main())
