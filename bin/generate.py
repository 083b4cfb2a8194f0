"""From the specification to the code: TLC simulates spec/Gen.tla (histories of
calls on one screen, with the effect the specification gives each call), the
driver makes the same calls on the real library, and every recorded effect is
compared with the specified one. A history that differs is handed to TLC as a
recorded trace, which decides whether the property at hand is concerned."""
import concurrent.futures as cf
import collections, json, os, random, re, shutil, tempfile
import vlib
from vlib import OUT, ToolError

# property -> kinds of history of a quick run
MIXES = {
    "C01": ["mixed", "narrow"], "C02": ["clear", "clear"], "C03": ["mixed", "narrow"], "C04": ["mixed", "narrow"], "C05": ["long"],
    "C06": ["long", "mixed"], "C07": ["mixed", "long"], "C08": ["narrow", "long"], "C11": ["long", "mixed"], "C16": ["clear"],
}
CFG = """SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANTS
    Width = 336
    Lines = 536
    RowPx = 352
    MaxU = 1073741824
    NL = 10
    Unknown = 65533
    Mix = "%s"
    Entries <- TEntries
    Glyph <- TGlyph
    MaxH <- TMaxH
INVARIANTS %s
"""


def tokens(rng):
    """A few dozen things a text is put together from."""
    g = vlib.golden()
    out = [[10], [10], [32], [32], [0x2e], [0x4d], [0x69]]
    latin = [c for c, _ in g["Regular"]["index"]]
    emoji = [c for c, _ in g["Emoji"]["index"]]
    hanzi = [c for c, _ in g["Hanzi"]["index"]]
    out += rng.sample(latin, 9) + rng.sample([c for c in latin if len(c) > 1], 3)
    out += rng.sample([c for c in emoji if len(c) == 1], 3)
    many = rng.sample([c for c in emoji if len(c) > 1], 4)
    out += many + [c[:-1] for c in many[:2]] + [[many[2][-1]]]
    out += rng.sample(hanzi, 4)
    out += [[0xfe0f], [0x200d], [0x301]][rng.randrange(3):][:1]
    out += [[rng.randrange(0x500, 0x10ff)], [rng.randrange(0x10000, 0x10800)], [rng.choice([0, 9, 13, 0xa0, 0xad, 0xfffd, 0x10ffff])]]
    return out


def simulate(mix, seed, num, depth, work, inv):
    rng = random.Random("%s %d" % (mix, seed))
    tok = tokens(rng)
    base = os.path.join(work, "g%d" % seed)
    with open(base + ".tok", "w") as f:
        json.dump(tok, f)
    vlib.font_subset({c for t in tok for c in t} | vlib.demo_cps(), base + ".font")
    with open(base + ".cfg", "w") as f:
        f.write(CFG % (mix, inv))
    r = vlib.tlc("Gen.tla", base + ".cfg", {"FONT": base + ".font", "TOKENS": base + ".tok"}, timeout=1500, light=num * depth < 20000,
                 extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    if "is violated" in r["out"] or "rror:" in r["out"] or r["rc"]:
        raise ToolError("simulation of Gen.tla failed:\n" + "\n".join(x for x in r["out"].split("\n") if "rror" in x)[:1000])
    beh = []
    for ln in r["out"].split("\n"):
        if ln.startswith('"{'):
            e = json.loads(json.loads(ln))
            if e["n"] == 1:
                beh.append([])
            if beh and e["n"] == len(beh[-1]) + 1:
                beh[-1].append(e)
    m = re.search(r"The number of states generated: (\d+)", r["out"])
    return beh, int(m[1]) if m else 0


def num(v):
    if v > 6 * 10**8:
        return "M%d" % (2**30 - v)
    if v > 49 * 10**7:
        b = (v - 5 * 10**8 + 5 * 10**5) // 10**6
        return "B%d.%d" % (b, v - 5 * 10**8 - b * 10**6)
    return str(v)


def line(e):
    if e["op"] == "paint":
        return "p %s %d %s %s" % (" ".join(map(str, e["clip"])), e["st"], " ".join(map(num, e["cur"])), ",".join(map(str, e["s"])) or "-")
    if e["op"] == "clear":
        return "c %s t" % " ".join(map(str, e["clip"]))
    return "d " + e["op"]


def bits(runs):
    return sum(((1 << (b - a + 1)) - 1) << a for a, b in runs)


FULL = (1 << 336) - 1


def differs(ev, e, ink):
    """Is the recorded event other than what the specification says? ink:
    row -> inked pixels, before the call; updated to the specification's."""
    # (TLC writes a function on 1..n as a list)
    rows = e["rows"].items() if isinstance(e["rows"], dict) else enumerate(e["rows"], 1)
    want = {int(y): sum(1 << x for x in xs) for y, xs in rows}
    for y, b in want.items():
        ink[y] = ink.get(y, 0) ^ b
    if not ev["ok"]:
        return True
    if e["op"] in ("paint", "clear"):
        got = {}
        for a, b, runs in ev["delta"]:
            for y in range(a, b + 1):
                got[y] = bits(runs)
        if {y: b for y, b in got.items() if b} != {y: b for y, b in want.items() if b}:
            return True
        if e["op"] == "paint" and max(e["cur"] + e["post"]) < 6 * 10**8 and ev["post"] != e["post"]:
            return True
        return False
    return ev["padpre"] != ev["padpost"] or any(bits(r) != FULL & ~ink.get(y, 0) for y, r in enumerate(ev["rows"]))


def follow(exe, beh, work, tag):
    """The driver makes the calls of the behaviours. -> differing prefixes"""
    lines = []
    for b in beh:
        lines += ["bg ffffffff"] + [line(e) for e in b]
    tr = os.path.join(work, "f%s.ndjson" % tag)
    vlib.run_driver(exe, lines, tr)
    evs = [json.loads(x) for x in open(tr) if x.strip()]
    os.remove(tr)
    out, i = [], 0
    for b in beh:
        ink = {}
        for k, e in enumerate(b):
            if i >= len(evs):
                return out
            bad = differs(evs[i], e, ink)
            i += 1
            if bad:
                out.append(b[:k + 1])
                i += len(b) - k - 1
                break
    return out


def run(prop, tier, seed, st):
    mixes = MIXES.get(prop)
    if not mixes:
        return
    thorough = tier == "thorough"
    work = tempfile.mkdtemp(prefix="g-%s-" % prop, dir=OUT)
    try:
        inv = "GContainment GOnScreen GConsumed" if thorough else "GOnScreen"
        n, depth = (60, 500) if thorough else (14, 350)
        if thorough:
            mixes = (mixes + ["mixed", "narrow", "long", "clear"]) * 3
        jobs = [(m, seed * 10000 + int(prop[1:]) * 100 + k, n if m != "long" else n // 2, depth if m != "long" else depth * 2, work, inv) for k, m in enumerate(mixes * 2)]
        with cf.ThreadPoolExecutor(8 if thorough else 4) as ex:
            res = list(ex.map(lambda j: simulate(*j), jobs))
        acts, calls = collections.Counter(), 0
        for beh, _ in res:
            for b in beh:
                calls += len(b)
                for e in b:
                    acts.update(e["acts"])
        if not calls:
            raise ToolError("Gen.tla produced no behaviour")
        profiles = ("dev", "release") if prop in ("C01", "C03") else ("dev",)
        bad, first = 0, []
        for p in profiles:
            exe = vlib.build_driver(p)
            for k, (beh, _) in enumerate(res):
                for h in follow(exe, beh, work, "%s%d" % (p, k)):
                    bad += 1
                    first.append((p, h))
        st.extra["specified_behaviours"] = {
            "behaviours": sum(len(b) for b, _ in res), "calls_followed": calls, "states_simulated": sum(s for _, s in res), "profiles": list(profiles),
            "calls_with": dict(sorted(acts.items())), "differing": bad}
        first.sort(key=lambda h: len(h[1]))
        for p in profiles:
            mine = [["bg ffffffff", "snap"] + [line(e) for e in h] for q, h in first if q == p][:40]
            vlib.validate(prop, vlib.build_driver(p), mine, st, profile=p)
    finally:
        shutil.rmtree(work, ignore_errors=True)
