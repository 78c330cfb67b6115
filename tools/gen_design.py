#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text from tools/design.md plus one section per property from
properties.jsonl, harness/specs.py, known_findings.txt and seeded/."""
import json, os, sys, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/harness"); import specs
ORACLE = {
 "C01": "The selected index of every model is asserted to lie in [0, policies); models are built through ModelFactory and Region, trained on symbolic measurements, the random draws and the network's probabilities are symbolic.",
 "C02": "Reference: a counter modulo the number of policies, per region.",
 "C03": "Reference: the number in the option text, evaluated independently; names not listed and texts without a number must stop the program.",
 "C04": "Reference: a list of entries searched linearly; equality of the whole content, metrics bit for bit; the merged-from dataset is unchanged.",
 "C05": "Reference: branch-free minimum over the inserted entries; ties accept any minimal policy.",
 "C06": "For each measured feature vector the prediction must have a metric not larger than any other measured for it (ties accepted).",
 "C07": "The stored tree text is read back by an independent reader in the harness; the samples are routed through it and every node's counts, depth, purity, thresholds and class are recomputed.",
 "C08": "Stored tree loaded into a fresh, an untrained and a differently trained tree; a symbolic query value must select alike, storing again gives the same text.",
 "C09": "As C08 for forests, per tree and for the vote.",
 "C10": "The generator's outputs are symbolic (symrand.h replaces the engine's output only, the distribution and the forest code are the library's); the prediction is compared with votes recounted from the stored trees.",
 "C11": "Three runs on one directory; the dataset of the next run must equal the previous one bit for bit; the text job stores and loads any dataset.",
 "C12": "No assertion beyond the engine's memory checks (bounds, lifetime, null, uninitialised pointers) and termination: every text either loads or stops with a reported error.",
 "C13": "An independent splitter in the harness computes name and parameters; accepted keys are compared with each model's documented list.",
 "C14": "A reference dataset accumulates (features, selected policy, metric) per region; the region's dataset must equal it after every execution.",
 "C15": "A stand-in for the CUDA/HIP event interface whose completion times are symbolic; a reference list of expected measurements; every event created is destroyed once.",
 "C16": "A reference counter decides when training must happen; training is observed through the model's trainable state and selections.",
 "C17": "Regions trained by Apollo::train or Region::train must select as a model trained directly on their own reference data; others must keep exploring.",
 "C18": "A stand-in MPI (mpistub.h) whose other ranks run the same packing code on symbolic data; the merged dataset is compared with the reference union.",
 "C19": "Reference: one dataset with the union of all regions; all regions must select as a model trained on it.",
 "C20": "The input encoding is recomputed bit by bit; the probabilities handed to the sampler (netrand.h captures them) must equal those of a fresh forward pass; the reward average is recomputed.",
 "C21": "All bytes of the parameter file symbolic: load then store reproduces them; a stored network continues exactly as the original over further training.",
 "C22": "The layer equations are written out directly; compared within a relative tolerance over all values, and exactly over small integers (where every summation order is exact).",
 "C23": "The declared set, the arithmetic progression inside the range, or the range's ends. Candidates are read back through requests only.",
 "C24": "Number of distinct combinations equals the number of policies; reference record of (context variables, combination) per tuning problem; the second declaration of a trained problem must select as the first.",
 "C25": "The clock is replaced (clock.h) by any non-decreasing readings; the metric is compared with the exact integer difference.",
 "C26": "The generated source is captured, compiled by the harness's own small parser of the emitted C expression language and evaluated on symbolic features; it must equal the interpreted tree.",
 "C27": "The trace is read back and compared field by field with a reference list of executions; the same history without tracing must select alike.",
 "C28": "A reference reading of the environment: which settings contradict, which default applies.",
 "C29": "The recorded policies in order; the nearest-match rule is not used by the code, lookups are exact.",
 "C30": "File names are computed independently; the loaded model must select as the stored one for a symbolic query; a missing file stops the program.",
 "C34": "The written reports are read back and compared word by word with the list of selections, executions and measurements of the history; the least metric per feature vector is recomputed over the measurements.",
 "C31": "The engine's memory checks over every bounded history: no use after release, double release or out-of-bounds access, then destructors of static objects are run.",
}
out = [open(H + "/tools/design.md").read().rstrip(), "", "## Properties", ""]
m = json.load(open(H + "/MANIFEST.json")); na = {x["property"]: x["reason"] for x in m["not_applicable"]}
kf = [l for l in open(H + "/known_findings.txt") if re.match("(fixed|known):", l)]
seeds = [json.load(open(f)) | {"id": os.path.basename(os.path.dirname(f))} for f in sorted(glob.glob(H + "/seeded/*/meta.json"))]
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; out.append("### %s: %s" % (i, p["title"])); out.append("")
    out.append(p.get("statement", "")); out.append("")
    if i in na: out.append("Not applicable: " + na[i]); out.append(""); continue
    s = specs.PROPS[i]
    out.append("*Oracle.* " + ORACLE.get(i, "")); out.append("")
    for j in s["jobs"]:
        b = j["bounds"]; out.append("- `%s` (harness/%s): %s. Bounds: %s%s." % (j["name"], j["src"], j["what"], b["quick"], "; thorough: " + b["thorough"] if b["thorough"] != b["quick"] else ""))
    if s["outside"]: out.append("- Outside the bounds: " + s["outside"] + ".")
    f = [x for x in kf if "property=%s " % i in x]
    for x in f: out.append("- Finding, " + x.strip().replace("property=%s " % i, ""))
    for x in seeds:
        if x["property"] == i: out.append("- Planted change `%s` (%s): caught." % (x["id"], x["what_it_breaks"]))
    out.append("")
open(H + "/DESIGN.md", "w").write("\n".join(out))
