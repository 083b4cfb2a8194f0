#!/usr/bin/env python3
"""Write MANIFEST.json (run from /verif)."""
import json, os, sys
sys.path.insert(0, "bin")
import check, generate, models

MODELS = "TLA+ design model checked with TLC (%s)"
CODE_TO_SPEC = "traces recorded from the code checked against the specification (Trace.tla)"
BOTH = CODE_TO_SPEC + "; behaviours simulated from the specification (Gen.tla) followed by the code"
T = {
    "C14": MODELS % "Geometry" + "; " + CODE_TO_SPEC,
    "C17": MODELS % "Web" + "; page loads recorded from the real main.js, wasm.js and wasm checked against the specification",
    "C18": MODELS % "MCCodegen, Lookup" + "; traces of the library built from regenerated fonts checked against those of the shipped one",
    "C19": MODELS % "MCCodegen" + "; traces of libraries built from synthetic sprite sheets checked against the specified sprites",
    "C20": MODELS % "Lookup" + "; traces of libraries built from synthetic indexes and aliases checked against the specification",
}
NOTE = ("Model checking of the TLA+ design models named in the evidence file is exhaustive within their constants; the code is bound to the "
        "specification in both directions: traces recorded from it (quick: about 10k calls, plus millions compared in bulk with a transcription "
        "of the specification, differing ones being judged by TLC) and behaviours generated from the specification that it must follow. "
        "Trusts TLC, Apalache, the recorder and the font constants derived from the sprite sheets.")


def technique(p):
    if p in T:
        return T[p]
    tlc = [m["module"] for m in models.PLAN[p] if not m.get("apalache")]
    names = MODELS % ", ".join(dict.fromkeys(tlc)) if tlc else ""
    if any(m.get("apalache") for m in models.PLAN[p]):
        names += (" and " if names else "TLA+ design model checked with ") + "Apalache (Arith)"
    return names + "; " + (BOTH if p in generate.MIXES else CODE_TO_SPEC)


checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    if p not in check.CHECKS:
        continue
    checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": technique(p), "level": "model_checking", "level_note": NOTE})
na = [{"property": json.loads(x)["id"], "reason": "check not built yet"} for x in open("properties.jsonl")
      if json.loads(x)["id"] not in check.CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every observation is made through the public API."}, open("MANIFEST.json", "w"), indent=1)
