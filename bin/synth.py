"""Synthetic fonts: sprite sheets, indexes and alias lists for the code
generator, and the specification's constants for them (computed from what was
drawn, never from what the generator made of it)."""
import json, os, random, struct, zlib

NAMES = ["Emoji", "Hanzi", "Small", "Regular", "Bold"]
LATIN = ("Small", "Regular", "Bold")
# blocks the generator knows; leading codepoints must lie in one of them
BLOCKS = [(0, 0x7f), (0x80, 0xff), (0x100, 0x17f), (0x2000, 0x206f), (0x20a0, 0x20cf), (0x2100, 0x214f), (0x2190, 0x21ff),
          (0x2300, 0x23ff), (0x2460, 0x24ff), (0x25a0, 0x25ff), (0x2600, 0x26ff), (0x2700, 0x27bf), (0x2900, 0x297f),
          (0x2b00, 0x2bff), (0x3000, 0x303f), (0x3200, 0x32ff), (0x3400, 0x4dbf), (0x4e00, 0x9fff), (0xe000, 0xf8ff),
          (0xff00, 0xffef), (0x1f000, 0x1f02f), (0x1f0a0, 0x1f0ff), (0x1f100, 0x1f1ff), (0x1f200, 0x1f2ff),
          (0x1f300, 0x1f5ff), (0x1f600, 0x1f64f), (0x1f680, 0x1f6ff), (0x1f780, 0x1f7ff), (0x1f900, 0x1f9ff),
          (0x1fa70, 0x1faff), (0x20000, 0x2a6df), (0x2a700, 0x2b73f), (0x2b740, 0x2b81f), (0x2b820, 0x2ceaf),
          (0x2ceb0, 0x2ebef), (0x2f800, 0x2fa1f), (0x30000, 0x3134f)]


def png(path, rows, mode, rng):
    """rows: list of lists, 1 = ink (black). mode: how the sheet is stored."""
    h, w = len(rows), len(rows[0])
    raw = bytearray()
    if mode == "gray1":
        for r in rows:
            raw.append(0)
            for i in range(0, w, 8):
                b = 0
                for k in range(8):
                    b = b << 1 | (1 if i + k < w and not r[i + k] else 0)
                raw.append(b)
        hdr = struct.pack(">IIBBBBB", w, h, 1, 0, 0, 0, 0)
        extra = b""
    elif mode in ("pal", "pal1"):
        # ink may be any index of the palette
        cols = [b"\xff\xff\xff", b"\0\0\0"] + ([b"\xc0\xff\x10", b"\x01\0\0"] if mode == "pal" else [])
        order = list(range(len(cols)))
        rng.shuffle(order)
        pal = b"".join(cols[k] for k in order)
        at = {k: i for i, k in enumerate(order)}
        for r in rows:
            v = [at[1] if v else at[0 if mode == "pal1" or rng.random() < .8 else rng.randrange(2, 4)] for v in r]
            raw.append(0)
            raw += bytes(v) if mode == "pal" else bytes(int("".join(map(str, (v[i:i + 8] + [0] * 8)[:8])), 2) for i in range(0, w, 8))
        hdr = struct.pack(">IIBBBBB", w, h, 8 if mode == "pal" else 1, 3, 0, 0, 0)
        extra = chunk(b"PLTE", pal)
    elif mode == "rgba":
        for r in rows:
            raw.append(0)
            for v in r:
                raw += b"\0\0\0\xff" if v else b"\xff\xff\xff\xff"
        hdr = struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0)
        extra = b""
    elif mode == "gray16":
        for r in rows:
            raw.append(0)
            for v in r:
                raw += b"\0\0" if v else b"\xff\xff"
        hdr = struct.pack(">IIBBBBB", w, h, 16, 0, 0, 0, 0)
        extra = b""
    elif mode == "rgb":
        for r in rows:
            raw.append(0)
            for v in r:
                raw += b"\0\0\0" if v else b"\xff\xff\xff"
        hdr = struct.pack(">IIBBBBB", w, h, 8, 2, 0, 0, 0)
        extra = b""
    else:
        for r in rows:
            raw.append(0)
            raw += bytes(0 if v else 255 for v in r)
        hdr = struct.pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0)
        extra = b""
    with open(path, "wb") as f:
        f.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", hdr) + extra + chunk(b"IDAT", zlib.compress(bytes(raw), 6)) + chunk(b"IEND", b""))


def chunk(t, b):
    return struct.pack(">I", len(b)) + t + b + struct.pack(">I", zlib.crc32(t + b))


def mm3(cps, seed=0):
    h = seed
    n = 0
    for c in cps:
        k = c * 0xcc9e2d51 & 0xffffffff
        k = (k << 15 | k >> 17) & 0xffffffff
        k = k * 0x1b873593 & 0xffffffff
        h ^= k
        h = (h << 13 | h >> 19) & 0xffffffff
        h = (h * 5 + 0xe6546b64) & 0xffffffff
        n += len(chr(c).encode())
    h ^= n
    h ^= h >> 16
    h = h * 0x85ebca6b & 0xffffffff
    h ^= h >> 13
    h = h * 0xc2b2ae35 & 0xffffffff
    return h ^ (h >> 16)


def sprite(size, rng):
    """A square cell; ink in all sorts of places."""
    k = rng.random()
    cell = [[0] * size for _ in range(size)]
    if k < .06:
        return cell
    if k < .16:         # one pixel, often at an edge
        e = lambda: rng.choice([0, size - 1, rng.randrange(size)])
        cell[e()][e()] = 1
    elif k < .26:       # two pixels: blank interior
        e = lambda: rng.choice([0, size - 1, rng.randrange(size)])
        cell[e()][e()] = 1
        cell[e()][e()] = 1
    elif k < .36:       # a frame
        x0, x1 = sorted((rng.randrange(size), rng.randrange(size)))
        y0, y1 = sorted((rng.randrange(size), rng.randrange(size)))
        for x in range(x0, x1 + 1):
            cell[y0][x] = cell[y1][x] = 1
        for y in range(y0, y1 + 1):
            cell[y][x0] = cell[y][x1] = 1
    elif k < .42:       # all ink
        cell = [[1] * size for _ in range(size)]
    elif k < .5:        # one row or column
        i = rng.randrange(size)
        for j in range(size):
            if rng.random() < .5:
                cell[i][j] = 1
        if rng.random() < .5:
            cell = [list(r) for r in zip(*cell)]
    else:               # noise in a sub-rectangle
        x0, x1 = sorted((rng.randrange(size + 1), rng.randrange(size + 1)))
        y0, y1 = sorted((rng.randrange(size + 1), rng.randrange(size + 1)))
        p = rng.choice([.1, .5, .9])
        for y in range(y0, y1):
            for x in range(x0, x1):
                cell[y][x] = int(rng.random() < p)
    return cell


def runs(row):
    out, x = [], 0
    while x < len(row):
        if row[x]:
            s = x
            while x < len(row) and row[x]:
                x += 1
            out.append([s, x - 1])
        else:
            x += 1
    return out


def clusters(n, rng, flavour):
    """Distinct clusters with a lot of shared beginnings."""
    out, seen = [], set()
    nblk = rng.choice([1, 2, 4, 12, len(BLOCKS)]) if flavour == "index" else 8
    blks = rng.sample(BLOCKS, nblk)
    tails = [0x200d, 0xfe0f, 0x301, 0x308, 0x1f3fb, 0x1f3ff, 0x20e3, 0xe0067, 0xe007f, 0x41, 0x7f, 0x80]
    def cp():
        lo, hi = rng.choice(blks)
        k = rng.random()
        if lo == 0 and k < .5:
            return rng.choice([0, 1, 2, 5, 7, 8, 9, 11, 12, 13, 15, 16, 31, 33])     # also numbers of one digit
        return lo if k < .15 else hi if k < .3 else rng.randint(lo, hi)
    guard = 0
    while len(out) < n and guard < 50 * n:
        guard += 1
        k = rng.random()
        if k < .45 or not out:
            c = [cp()]
        elif k < .8:
            c = list(rng.choice(out)) + [rng.choice(tails + [cp()])]
        elif k < .9:
            b = rng.choice(out)
            c = list(b[:max(1, len(b) - 1)])
        else:
            more = rng.randrange(1, 9) if rng.random() < .9 else rng.randrange(9, 40)
            c = [cp()] + [rng.choice(tails + [cp()]) for _ in range(more)]
        c = tuple(c)
        if c in seen or c[0] in (10, 0xfffd) or any(0xd800 <= x < 0xe000 for x in c):
            continue
        seen.add(c)
        out.append(c)
    return out


def hexgc(c, rng):
    return "-".join((rng.choice(["%x", "%X", "%04x", "%x", "%06X"]) % x) for x in c)


LEGAL = """// Made-up credits for %s: <b>"quotes" & 'more'</b>, {{.Font.Name}}, {{/* x */}}, `ticks`, %%s %%d, \\u0041
//
//   > indented // twice /* not a comment */ 鹅 😀 100%%
//"""


def make(dirname, seed, flavour):
    """Write codegen/config.json and what it refers to below dirname; return
    the font constants {set: {max_height, index, glyphs}}."""
    rng = random.Random(seed)
    os.makedirs(os.path.join(dirname, "syn"), exist_ok=True)
    font, conf = {}, []
    latin_shared = None
    for name in NAMES:
        if name in LATIN:
            size = rng.choice([6, 8, 12, 16, 24, 30, 32])
        else:
            size = rng.choice([1, 2, 3, 5, 8, 13, 16, 21, 31, 32, 32])
        gutter, border = rng.randrange(6), rng.randrange(6)
        cols = rng.choice([3, 4, 5, 7, 16, 20])
        mode = "CJK" if name == "Hanzi" and rng.random() < .8 or name == "Emoji" and rng.random() < .15 else "proportional"
        n = rng.randrange(60, 120) if flavour == "sprite" else rng.randrange(1, 90)
        if seed % 8 == 3 and name == "Emoji" and flavour == "index":
            n = 700         # a big table: many entries in one block, offsets past 2^12
        if name in LATIN and latin_shared is not None and rng.random() < .5:
            cl = list(latin_shared)
        else:
            cl = clusters(n, rng, flavour)
            if name in LATIN:
                latin_shared = latin_shared or list(cl)
        if name in LATIN:
            cl = cl + [(0xfffd,)]
            if (0x20,) not in cl:
                cl.append((0x20,))
        rng.shuffle(cl)
        seed3 = rng.choice([0, 0, 1, rng.randrange(2**32)])
        # aliases: canonical and alias from any block, some sharing beginnings
        pool = [c for c in clusters(len(cl) // 2 + 3, rng, flavour) if c not in set(cl)]
        pool += [c + (x,) for c in rng.sample(cl, min(6, len(cl))) for x in (0xfe0f, 0x301) if c + (x,) not in set(cl) and c != (0xfffd,)]
        pool = list(dict.fromkeys(pool))
        nal = rng.choice([0, 1, 5, len(pool)]) if flavour == "index" else 3
        aliases = [(rng.choice(cl), a) for a in rng.sample(pool, min(nal, len(pool)))]
        # no two of them with the same hash (the generated tests demand that)
        allc = list(cl) + [a for _, a in aliases]
        assert len({mm3(c, seed3) for c in allc}) == len(allc)
        json_index = name in LATIN or rng.random() < .4
        # grid positions
        if json_index:
            nrows = -(-len(cl) // cols) + rng.randrange(3)
            spots = [(r, c) for r in range(nrows) for c in range(cols)]
            if name in LATIN:
                spots.remove((0, 2))
                if len(spots) < len(cl) - 1:
                    spots += [(nrows, c) for c in range(cols)]
                    nrows += 1
                pos = dict(zip([c for c in cl if c != (0x20,)], rng.sample(spots, len(cl) - 1)))
                pos[(0x20,)] = (0, 2)
            else:
                pos = dict(zip(cl, rng.sample(spots, len(cl))))
        else:
            nrows = -(-len(cl) // cols) + rng.randrange(2)
            pos = {c: (k // cols, k % cols) for k, c in enumerate(cl)}
        grid = size + gutter
        W, H = border + cols * grid + rng.randrange(3), border + nrows * grid + rng.randrange(3)
        junk = rng.random() < .5      # ink in gutters, border and unused cells
        sheet = [[int(junk and rng.random() < .3) for _ in range(W)] for _ in range(H)]
        glyphs, index, by = [], [], {}
        for c in cl:
            r, k = pos[c]
            cell = [[0] * size for _ in range(size)] if c == (0x20,) and name in LATIN and rng.random() < .8 else sprite(size, rng)
            kind = "space" if name in LATIN and (r, k) == (0, 2) else "prop" if name in LATIN or mode != "CJK" else "whole"
            for y in range(size):
                sheet[border + r * grid + y][border + k * grid:border + k * grid + size] = cell[y]
            by[c] = len(glyphs)
            index.append([list(c), len(glyphs)])
            glyphs.append({"size": size, "kind": kind, "cell": [runs(q) for q in cell]})
        for canon, a in aliases:
            index.append([list(a), by[canon]])
        png(os.path.join(dirname, "syn", name + ".png"), sheet, rng.choice(["gray8", "gray1", "rgb", "pal", "pal", "pal1", "rgba", "gray16"]), rng)
        nl = rng.choice(["\n", "\n", "\r\n"])
        def noise(txt):
            out = [rng.choice(["# made up", "", "   "])] if rng.random() < .5 else []
            for t in txt:
                out.append(rng.choice(["", "  "]) * (rng.random() < .2) + t + rng.choice(["", "  # note", " ", "\t# x y", "#n"]))
                if rng.random() < .15:
                    out.append(rng.choice(["", "# 41 42", "#1f600-fe0f", "  ", "\t"]))
            return nl.join(out) + (nl if rng.random() < .8 else "")
        if json_index:
            m = [{"hex": hexgc(c, rng), "row": pos[c][0], "col": pos[c][1]} for c in cl]
            json.dump({"comment": ["x"], "map": m}, open(os.path.join(dirname, "syn", name + "_index.json"), "w"))
        else:
            open(os.path.join(dirname, "syn", name + "_index.txt"), "w", newline="").write(noise([hexgc(c, rng) for c in cl]))
        alf = ""
        if aliases or rng.random() < .3:
            alf = "syn/" + name + "_aliases.txt"
            open(os.path.join(dirname, alf), "w", newline="").write(noise([hexgc(a, rng) + " " + hexgc(b, rng) for a, b in aliases]))
        leg = ""
        if rng.random() < .6:
            leg = "syn/" + name + "_legal.txt"
            open(os.path.join(dirname, leg), "w", encoding="utf-8").write(LEGAL % name + rng.choice(["", "\n", "\n\n"]))
        conf.append({"name": name, "m3Seed": seed3, "sprites": "syn/%s.png" % name, "size": size, "cols": cols, "gutter": gutter,
                     "border": border, "legal": leg, "index": "syn/%s_index.%s" % (name, "json" if json_index else "txt"),
                     "indexType": "json-grid-coord" if json_index else "txt-row-major", "aliases": alf,
                     "glyphTrim": mode, "rustout": "../src/fonts/%s.rs" % name.lower()})
        font[name] = {"max_height": size, "index": index, "glyphs": glyphs, "seed": seed3}
    rng.shuffle(conf)
    json.dump({"comment": ["synthetic"], "glyphSets": conf}, open(os.path.join(dirname, "config.json"), "w"))
    return font


# ------------------------------------------------ inputs with something wrong
READ_KINDS = ("sheet", "index", "legal", "aliases", "type", "hex", "cell", "alias")
WRITE_KINDS = ("write",)     # and "full", which is the same for all sets
NO_HEX = ("zz", "41 42", "1f600-", "1f600--fe0f", "g", "1ffffffff", "110000", "d800", "41-dfff", "ffffffff", "41-110000", "x41", "4.1")


def spoil(path, rng, cut=True):
    """Make a file unreadable as what it is (or at all)."""
    k = rng.randrange(4 if cut else 2)
    if k == 2:
        os.truncate(path, int(os.path.getsize(path) * rng.choice([0, 0, .1, .5, .9])))
        return "cut"
    if k == 3:
        with open(path, "w") as f:
            f.write("hello {")
        return "not that"
    os.remove(path)
    if k == 1:
        os.mkdir(path)
        return "a folder"
    return "missing"


def flaw(dirname, s, kind, rng):
    """Give glyph set number s (from 1; 0: the configuration) a flaw; returns what it is."""
    cp = os.path.join(dirname, "config.json")
    if kind == "config":
        return spoil(cp, rng)
    conf = json.load(open(cp))
    g = conf["glyphSets"][s - 1]

    def save():
        json.dump(conf, open(cp, "w"))
    index = os.path.join(dirname, g["index"])
    js = g["indexType"] == "json-grid-coord"
    if kind == "sheet":
        return spoil(os.path.join(dirname, g["sprites"]), rng)
    if kind == "index":
        return spoil(index, rng, cut=js)
    if kind in ("legal", "aliases"):
        if g[kind]:
            return spoil(os.path.join(dirname, g[kind]), rng, cut=False)
        g[kind] = "syn/nothing.txt"
        save()
        return "missing"
    if kind == "type":
        g["indexType"] = rng.choice(["", "txt", "json", "TXT-ROW-MAJOR", "txt-row-major ", "json-grid", "col-major"])
        save()
        return g["indexType"]
    if kind == "hex":
        h = rng.choice(NO_HEX)
        if js:
            m = json.load(open(index))
            rng.choice(m["map"])["hex"] = h
            json.dump(m, open(index, "w"))
        else:
            lines = open(index, newline="").read().split("\n")
            full = [k for k, x in enumerate(lines) if x.split("#")[0].strip()]
            lines[rng.choice(full)] = h
            open(index, "w", newline="").write("\n".join(lines))
        return h
    if kind == "cell":
        if js and rng.random() < .6:
            m = json.load(open(index))
            e = rng.choice(m["map"])
            e[rng.choice(["row", "col"])] = rng.choice([1000, -1000, 2 ** 31, 2 ** 40])
            json.dump(m, open(index, "w"))
            return "far cell"
        if js and rng.random() < .5:      # beyond the right edge of the sheet only
            m = json.load(open(index))
            rng.choice(m["map"])["col"] = g["cols"] + rng.choice([3, 4, 20, 100])
            json.dump(m, open(index, "w"))
            g["cols"] += 200
            save()
            return "right of the sheet"
        g["border"] += 5000
        save()
        return "border"
    if kind == "alias":
        texts = [e["hex"] for e in json.load(open(index))["map"]] if js else []
        for p in [] if js else [index]:
            texts += [x.split("#")[0].strip() for x in open(p).read().split("\n")]
        if g["aliases"]:
            texts += [t for x in open(os.path.join(dirname, g["aliases"])).read().split("\n") for t in x.split("#")[0].split()]
        listed = {tuple(int(h, 16) for h in t.split("-")) for t in texts if t}
        first = texts[0] if js else next(t for t in texts if t)
        stray = [t for t in ("2f81a", "1f5ff-1f5ff", "e0041", "7e-7e", "30ff", first + "-301", first + "-" + first, first.split("-")[0])
                 if tuple(int(h, 16) for h in t.split("-")) not in listed]
        extra = rng.choice([first + " " + rng.choice([h for h in NO_HEX if " " not in h]), rng.choice(stray) + " 2f81b"])
        if not g["aliases"]:
            g["aliases"] = "syn/more.txt"
            save()
        with open(os.path.join(dirname, g["aliases"]), "a") as f:
            f.write("\n" + extra + "\n")
        return extra
    if kind == "write":
        g["rustout"] = rng.choice(["../nowhere/x.rs", "../src", "../src/fonts", "", "../config.json/x.rs"])
        save()
        return g["rustout"]


def collides(font, s, memo={}):
    key = id(font)
    if key not in memo:
        memo.clear()
        memo[key] = [({mm3(c, f["seed"]) for c, _ in f["index"]}, {tuple(c) for c, _ in f["index"]}, f["seed"],
                      max(len(c) for c, _ in f["index"])) for f in font.values()]
    for hs, ls, sd, mx in memo[key]:
        for i in range(len(s)):
            for n in range(1, min(mx, len(s) - i) + 1):
                c = tuple(s[i:i + n])
                if c not in ls and mm3(c, sd) in hs:
                    return True
    return False


def font_json(font, path):
    """The specification's constants as Trace.tla reads them."""
    out = {}
    for name, s in font.items():
        idx = {}
        for c, g in s["index"]:
            idx.setdefault(str(c[0]), []).append({"cps": c, "g": str(g)})
        out[name] = {"maxh": s["max_height"], "index": idx, "glyphs": {str(k): g for k, g in enumerate(s["glyphs"])}}
    json.dump(out, open(path, "w"))


def scenarios(font, seed, flavour, n):
    """Paint calls for a synthetic font."""
    rng = random.Random(seed)
    out = []
    allc = [(name, c) for name, f in font.items() for c, _ in f["index"]]

    def paint(s, st=None, x=0, y=0, clip="0 0 336 536"):
        if s and not collides(font, s):
            out.append(["bg 0", "p %s %d %d %d 0 %s" % (clip, rng.randrange(3) if st is None else st, x, y, ",".join(map(str, s)))])
    # every cluster and alias, in its own set's style
    for name, c in allc:
        st = {"Small": 0, "Regular": 1, "Bold": 2}.get(name, rng.randrange(3))
        paint(c, st, rng.randrange(200), rng.randrange(200))
    for name, f in font.items():
        if flavour == "sprite" and name in LATIN:
            paint([0x20], {"Small": 0, "Regular": 1, "Bold": 2}[name], 5, 5)
    pool = [c for _, c in allc]
    singles = sorted({x for c in pool for x in c})
    for _ in range(n):
        k = rng.random()
        s = []
        for _ in range(rng.randrange(1, 7)):
            q = rng.random()
            c = list(rng.choice(pool))
            if q < .35:
                s += c
            elif q < .55:
                s += c[:rng.randrange(1, len(c) + 1)]
            elif q < .7:
                s += [rng.choice(singles)]
            elif q < .8:
                c[rng.randrange(len(c))] = rng.choice(singles)
                s += c
            elif q < .9:
                lo, hi = rng.choice(BLOCKS)
                s += [rng.choice([lo, hi, lo - 1, hi + 1, rng.randint(lo, hi)])]
            else:
                s += [rng.choice([rng.randrange(0x20, 0xd7ff), rng.randrange(0xe000, 0x110000)])]
        s = [x for x in s if 0 <= x < 0x110000 and not 0xd800 <= x < 0xe000]
        paint(s, None, rng.randrange(300), rng.randrange(300))
    return out
