#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/specs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/harness")
import specs
NA = {
 "C32": "The OpenCV configuration (ENABLE_OPENCV) cannot be compiled here: OpenCV is not installed, and without it the timing model is not part of the library at all; its arithmetic lives in OpenCV's closed ml::RTrees code, which is not in the repository to encode.",
 "C33": "The scripts are Python programs over pandas data frames; pandas is not installed here, so the code can neither be executed symbolically nor replayed, and a solver encoding would be of pandas rather than of the repository.",
}
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in specs.PROPS:
        s = specs.PROPS[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
            technique="bounded symbolic execution of the current sources' LLVM bitcode; branch feasibility, assertions and memory safety decided by SMT (Z3, cvc5 for hard floating-point queries); counterexamples replayed natively",
            level="model_checking",
            level_note="Bounds (quick): " + "; ".join("%s: %s" % (j["name"], j["bounds"]["quick"]) for j in s["jobs"] if not j.get("thorough_only")) + (". Outside: " + s["outside"] if s["outside"] else "")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
