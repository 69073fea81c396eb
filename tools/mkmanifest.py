#!/opt/venv/bin/python
"""Writes MANIFEST.json from the check modules."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: validity predicate on generated edge-map pairs",
    "C02": "property-based testing: differential against an optimal assignment solver, metamorphic relations",
    "C03": "property-based testing: differential against an independent Guo-Hall reference",
    "C04": "property-based testing: topological invariant between input and output",
    "C05": "property-based testing: differential against a reference NMS",
    "C06": "property-based testing: reference evaluation (brute-force matching)",
    "C07": "property-based testing: reference evaluation and metamorphic relations over annotations",
    "C08": "property-based testing: brute-force distances, metamorphic relations",
    "C09": "property-based testing: reference aggregation in plain Python, metamorphic relations",
    "C10": "property-based testing: reference meaning of threshold specifications",
    "C11": "property-based testing: serial map as reference over generated tasks and schedules",
    "C12": "property-based testing: round trips and bitwise reference",
    "C13": "property-based testing: brute-force Euclidean distance reference",
    "C14": "property-based testing: brute-force reference, metamorphic relations",
    "C15": "property-based testing: differential between the generators over call histories",
    "C16": "property-based testing: per-pixel reference",
    "C17": "property-based testing: generated annotation trees against a reference conversion",
    "C18": "property-based testing: generated dataset trees against a reference conversion",
    "C19": "property-based testing: generated sample files against a reference evaluation",
    "C20": "property-based testing: differential, on-the-fly against converted ground truth",
    "C21": "property-based testing: generated datasets with decoys against a reference evaluation",
    "C22": "property-based testing (model-based): sequences of protocol settings against a reference table",
    "C23": "property-based testing: generated datasets with decoys against a reference evaluation",
    "C24": "property-based testing: parsed summaries against the mean of the parsed results",
    "C25": "property-based testing: parsed result files against recomputed metrics",
    "C26": "property-based testing: matplotlib artists against the saved results",
    "C27": "property-based testing: differential, command line against the evaluator",
    "C28": "sanitizer fuzzing (ASan, UBSan, assertions) of the native extensions with structured generators",
    "C29": "property-based testing: model of the directory tree, model-based histories",
    "C30": "property-based testing: generated source trees, conversion then evaluation against a reference from the annotation",
    "C31": "property-based testing: generated prediction directories against a model of the outputs",
    "C32": "property-based testing: differential against the filter written as a matrix",
    "C33": "model-based testing of operation histories under an artificial clock",
    "C34": "model-based testing of logging histories",
    "C35": "property-based testing: generated tree pairs with known differences",
    "C36": "property-based testing: generated call histories and memory layouts against the same calls alone in fresh processes",
    "C37": "property-based testing: generated contour scenes against counts known by construction and scores recomputed from the counts",
}


def meta(p):
    out = {"RULE": "", "ASSUMPTIONS": []}
    for node in ast.parse(open(p).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in out:
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


ids = [json.loads(line)["id"] for line in open(os.path.join(V, "properties.jsonl")) if line.strip()]
checks = []
na = []
for i in ids:
    p = os.path.join(V, "checks", i.lower() + ".py")
    if not os.path.exists(p):
        na.append({"property": i, "reason": "no check yet"})
        continue
    m = meta(p)
    note = "No counterexample among the generated cases: " + m["RULE"] + "."
    if m["ASSUMPTIONS"]:
        note += " Assumes: " + "; ".join(m["ASSUMPTIONS"]) + "."
    checks.append({"property": i, "quick_cmd": "./run.py %s quick" % i, "thorough_cmd": "./run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH[i], "level": "exploration", "level_note": note})
man = {"version": 1, "setup_cmd": "./run.py --setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks: the checks use the public interfaces of /repo; the extensions are rebuilt from /repo's sources outside /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
