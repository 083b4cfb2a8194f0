#!/usr/bin/env python3
"""Rewrite DESIGN.md's table of planted changes from seeded/*/meta.json."""
import glob, json, os, re
by = {}
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    by.setdefault(m["property"], []).append("%s (%s)" % (os.path.basename(os.path.dirname(p)), m["needs"]))
t = "".join("* **%s**: %s\n" % (k, "; ".join(by[k])) for k in sorted(by))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m[1] + t + m[2], s, flags=re.S)
open("DESIGN.md", "w").write(s)
print(sum(map(len, by.values())))
