#!/usr/bin/env python3
"""Derive the specification's font constants from the *source* artwork.

Reads codegen/config.json, the PNG sprite sheets, the cluster index files and
the alias files of a blitstr tree, and writes font/golden.json.gz: the constant
tables that the TLA+ specification (spec/Blitstr.tla) is instantiated with.
Nothing under src/fonts/ is read: the generated Rust tables are what the
specification is checked *against*.

Usage: make_golden.py REPO OUT.json.gz
"""
import gzip, json, os, struct, sys, zlib


def read_png(path):
    d = open(path, "rb").read()
    assert d[:8] == b"\x89PNG\r\n\x1a\n"
    pos, idat, plte = 8, b"", None
    while pos < len(d):
        n, typ = struct.unpack(">I4s", d[pos:pos + 8])
        body = d[pos + 8:pos + 8 + n]
        pos += 12 + n
        if typ == b"IHDR":
            w, h, depth, ctype, _, _, inter = struct.unpack(">IIBBBBB", body)
        elif typ == b"PLTE":
            plte = body
        elif typ == b"IDAT":
            idat += body
    assert inter == 0 and ctype in (0, 3), (path, ctype)
    raw = zlib.decompress(idat)
    stride = (w * depth + 7) // 8
    bpp = max(1, depth // 8)
    rows, prev, p = [], bytes(stride), 0
    for _ in range(h):
        f = raw[p]
        line = bytearray(raw[p + 1:p + 1 + stride])
        p += 1 + stride
        for i in range(stride):
            a = line[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if f == 1:
                line[i] = (line[i] + a) & 255
            elif f == 2:
                line[i] = (line[i] + b) & 255
            elif f == 3:
                line[i] = (line[i] + ((a + b) >> 1)) & 255
            elif f == 4:
                pa, pb, pc = abs(b - c), abs(a - c), abs(a + b - 2 * c)
                pr = a if pa <= pb and pa <= pc else (b if pb <= pc else c)
                line[i] = (line[i] + pr) & 255
        prev = bytes(line)
        px = []
        for x in range(w):
            v = (line[x * depth // 8] >> (8 - depth - (x * depth) % 8)) & ((1 << depth) - 1)
            red = plte[3 * v] if ctype == 3 else v
            px.append(1 if red == 0 else 0)     # ink = red channel is zero
        rows.append(px)
    return rows


def cps(hexgc):
    return [int(t, 16) for t in hexgc.split("-")]


def read_txt_index(path, cols):
    out, n = [], 0
    for line in open(path, encoding="utf-8"):
        t = line.split("#", 1)[0].strip()
        if t:
            out.append((t, n // cols, n % cols))
            n += 1
    return out


def read_aliases(path):
    out = []
    for line in open(path, encoding="utf-8"):
        t = line.split("#", 1)[0].strip().split(" ")
        if len(t) == 2 and t[0] and t[1]:
            out.append((t[0], t[1]))
    return out


def trim(cell, name, mode, size, row, col):
    """Blank margins are removed up to the limits [top, right, bottom, left]."""
    if name in ("Bold", "Regular", "Small") and (row, col) == (0, 2):
        lim = (size // 2 - 1, size // 2 - 2, size // 2 - 1, size // 2 - 2)
    elif mode == "CJK":
        lim = (0, 0, 0, 0)
    else:
        lim = (size,) * 4
    h, w = len(cell), len(cell[0])
    colblank = [not any(r[x] for r in cell) for x in range(w)]
    l = 0
    while l < w and l < lim[3] and colblank[l]:
        l += 1
    r = 0
    while r < w - l and r < lim[1] and colblank[w - 1 - r]:
        r += 1
    cell = [q[l:w - r] for q in cell]
    t = 0
    while t < h and t < lim[0] and not any(cell[t]):
        t += 1
    b = 0
    while b < h - t and b < lim[2] and not any(cell[h - 1 - b]):
        b += 1
    return cell[t:h - b], t


def runs(row):
    out, x = [], 0
    while x < len(row):
        if row[x]:
            s = x
            while x < len(row) and row[x]:
                x += 1
            out.append([s, x - 1])
        else:
            x += 1
    return out


def main(repo, out):
    cg = os.path.join(repo, "codegen")
    conf = json.load(open(os.path.join(cg, "config.json")))
    sets = {}
    for gs in conf["glyphSets"]:
        name, size = gs["name"], gs["size"]
        img = read_png(os.path.join(cg, gs["sprites"]))
        grid, border = size + gs["gutter"], gs["border"]
        if gs["indexType"] == "txt-row-major":
            idx = read_txt_index(os.path.join(cg, gs["index"]), gs["cols"])
        else:
            m = json.load(open(os.path.join(cg, gs["index"])))["map"]
            idx = [(e["hex"], e["row"], e["col"]) for e in m]
        glyphs, index, by = [], [], {}
        for hx, row, col in idx:
            cell = [img[y][border + col * grid:(col + 1) * grid]
                    for y in range(border + row * grid, (row + 1) * grid)]
            cell, yo = trim(cell, name, gs["glyphTrim"], size, row, col)
            w, h = (len(cell[0]), len(cell)) if cell and cell[0] else (0, 0)
            by[tuple(cps(hx))] = len(glyphs)
            index.append([cps(hx), len(glyphs)])
            glyphs.append([w, h, yo, [runs(r) for r in cell] if w else []])
        for canon, alias in (read_aliases(os.path.join(cg, gs["aliases"])) if gs["aliases"] else []):
            index.append([cps(alias), by[tuple(cps(canon))]])
        assert len({tuple(c) for c, _ in index}) == len(index), name
        sets[name] = {"max_height": size, "index": index, "glyphs": glyphs}
        print(name, "glyphs", len(glyphs), "clusters", len(index),
              "w", min(g[0] for g in glyphs), max(g[0] for g in glyphs),
              "bottom", max(g[1] + g[2] for g in glyphs))
    data = json.dumps({"sets": sets}, separators=(",", ":")).encode()
    with open(out, "wb") as fh, gzip.GzipFile("", "wb", 9, fh, mtime=0) as z:
        z.write(data)
    print(len(data), os.path.getsize(out))


if __name__ == "__main__":
    main(*sys.argv[1:3])
