#!/usr/bin/env python3
"""The documentation's screenshots (doc/goose_poem.png, doc/short_greeting.png) as
rows of inked pixels, in screen coordinates.

The screenshots are cut out of the web page: three colours, the darkest of which
is ink. Where the screen begins in each was found by eye (a margin of the page is
visible). Font artwork, layout and demo scripts of the specification must agree
with them pixel by pixel (MCDemo!AsDocumented); nothing here comes from the code.

Usage: make_doc_pictures.py REPO OUT.json
"""
import json, os, struct, sys, zlib

ORIGIN = {"goose_poem": (5, 4), "short_greeting": (7, 8)}
INK = (51, 51, 51)


def pixels(path):
    d = open(path, "rb").read()
    i, idat = 8, b""
    while i < len(d):
        n, t = struct.unpack(">I4s", d[i:i + 8])
        body = d[i + 8:i + 8 + n]
        i += 12 + n
        if t == b"IHDR":
            w, h, depth, ctype = struct.unpack(">IIBB", body[:10])
        elif t == b"IDAT":
            idat += body
    assert depth == 8
    ch = {2: 3, 6: 4}[ctype]
    raw, stride = zlib.decompress(idat), w * ch
    prev, out = bytearray(stride), []
    for y in range(h):
        f = raw[y * (stride + 1)]
        r = bytearray(raw[y * (stride + 1) + 1:(y + 1) * (stride + 1)])
        for x in range(stride):
            a, b, c = (r[x - ch] if x >= ch else 0), prev[x], (prev[x - ch] if x >= ch else 0)
            p = a + b - c
            near = min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
            r[x] = (r[x] + (0, a, b, (a + b) // 2, near)[f]) & 255
        out.append([tuple(r[x * ch:x * ch + 3]) for x in range(w)])
        prev = r
    return out


res = {}
for name, (dx, dy) in ORIGIN.items():
    px = pixels(os.path.join(sys.argv[1], "doc", name + ".png"))
    rows = {}
    for y, r in enumerate(px):
        ink = [x - dx for x, c in enumerate(r) if c == INK]
        if ink:
            runs = []
            for x in ink:
                if runs and runs[-1][1] == x - 1:
                    runs[-1][1] = x
                else:
                    runs.append([x, x])
            rows[str(y - dy)] = runs
    res[name] = rows
json.dump(res, open(sys.argv[2], "w"), separators=(",", ":"), sort_keys=True)
