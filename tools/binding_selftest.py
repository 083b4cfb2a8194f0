#!/usr/bin/env python3
"""Does Trace.tla refuse what it should? Records real traces, changes one recorded
field of one event, and demands that TLC refuses the trace at that event (or at the
relation that uses it). Not a check of /repo: a check of the checks.

Usage: binding_selftest.py [N]
"""
import json, os, random, shutil, sys, tempfile
import concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import check, vlib

rng = random.Random(7)


def pixel(e, lo=None, hi=None, inside=None):
    """Toggle one recorded pixel."""
    d = e["delta"]
    rows = {y: {x for a, b in r for x in range(a, b + 1)} for y0, y1, r in d for y in range(y0, y1 + 1)}
    if inside is None and rows and rng.random() < .5:
        y = rng.choice(sorted(rows)); x = rng.choice(sorted(rows[y]) or [0])
    elif inside is False:
        y, x = rng.randrange(536), rng.randrange(352)
        while e["clip"][0] <= x < e["clip"][2] and e["clip"][1] <= y < e["clip"][3] and e["clip"][2] <= 336 and e["clip"][3] <= 536:
            y, x = rng.randrange(536), rng.randrange(352)
    else:
        y, x = rng.randrange(536), rng.randrange(352)
    rows.setdefault(y, set()).symmetric_difference_update({x})
    out = []
    for y in sorted(rows):
        runs = []
        for x in sorted(rows[y]):
            if runs and runs[-1][1] == x - 1:
                runs[-1][1] = x
            else:
                runs.append([x, x])
        if runs:
            out.append([y, y, runs])
    e["delta"] = out
    return True


def cursor(e):
    if max(e["post"]) > 400000000:
        return False
    e["post"][rng.randrange(3)] += 1
    return True


def fail(e):
    e["ok"] = False
    return True


def outside(e):
    return pixel(e, inside=False)


def screen(e):
    r = rng.choice(e["rows"])
    if not r:
        return False
    r[0] = [r[0][0], r[0][1] - 1] if r[0][1] > r[0][0] else [r[0][0], r[0][1] + 1]
    return True


def limb(e):
    e["got"][0] = [e["got"][0][0], e["got"][0][1], e["got"][0][2] + 1]
    return True


def equal(e):
    e[rng.choice(["pt", "cursor", "rect"])] ^= True
    return True


def hint(e):
    e["hint"] += 1
    return True


# property, scenarios, kind of event, change
CASES = [
    ("C01", "anyrect", "paint", outside), ("C02", "clear_grid", "clear", pixel), ("C02", "clear_any", "clear", pixel), ("C02", "history", "paint", pixel),
    ("C03", "text", "paint", fail), ("C03", "clear_any", "clear", fail), ("C04", "glyph_align", "paint", pixel), ("C05", "glyph_all", "paint", pixel),
    ("C06", "sequence", "paint", pixel), ("C06", "sequence", "paint", cursor), ("C07", "advance", "paint", cursor), ("C07", "newlines", "paint", cursor),
    ("C08", "wrap_edge", "paint", cursor), ("C09", "split", "paint", pixel), ("C09", "split", "paint", cursor), ("C10", "rebg", "paint", pixel),
    ("C10", "order", "paint", cursor), ("C11", "glyph_style", "paint", pixel), ("C12", "overlap", "paint", pixel), ("C13", "mask", "paint", pixel),
    ("C13", "mask", "paint", cursor), ("C14", "rect", "rect", limb), ("C14", "eq", "eq", equal), ("C15", "hint", "style", hint),
    ("C16", "demo", "demo", screen),
]


def one(j, work):
    prop, fam, kind, change, k = j
    exe = vlib.build_driver("dev")
    font = os.path.join(work, "f%s%s%d.txt" % (prop, fam, k))
    vlib.font_text(font)
    ch = vlib.gen_chunks(exe, font, 4000 + k, [(fam, 12 if fam != "glyph_all" else 0)])
    ch = [c for c in ch if len(json.dumps(c)) < 40000][:14] if fam != "glyph_all" else random.Random(k).sample(ch, 20)
    tr = os.path.join(work, "t%s%s%s%d" % (prop, fam, change.__name__, k))
    vlib.run_driver(exe, [x for c in ch for x in c], tr)
    evs = [json.loads(x) for x in open(tr) if x.strip()]
    if vlib.judge(prop, tr) is not None:
        return j, "clean trace refused"
    used = {n for e in evs if e["k"] == "rel" for n in e["ev"]}
    cand = [i for i, e in enumerate(evs) if e["k"] == kind and e.get("ok") and (not used or i + 1 in used)]
    rng.shuffle(cand)
    for i in cand:
        if change(evs[i]):
            break
    else:
        return j, "nothing to change"
    with open(tr, "w") as f:
        f.write("\n".join(map(json.dumps, evs)) + "\n")
    got = vlib.judge(prop, tr)
    if got is None:
        return j, "ACCEPTED a changed event %d: %s" % (i, json.dumps(evs[i])[:300])
    if got[0] != i and evs[got[0]]["k"] not in ("rel", "snap", "clear"):
        return j, "refused at %d, not %d" % (got[0], i)
    return j, None


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 3
    vlib.build_driver("dev")
    work = tempfile.mkdtemp(dir=vlib.OUT)
    bad = 0
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            for j, r in ex.map(lambda j: one(j, work), [c + (k,) for c in CASES for k in range(n)]):
                if r:
                    bad += 1
                    print(j[0], j[1], j[3].__name__, j[4], r)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("%d changed traces, %d not refused as they should be" % (len(CASES) * n, bad))
    return bool(bad)


if __name__ == "__main__":
    sys.exit(main())
