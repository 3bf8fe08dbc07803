#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from propdefs.py and checks.py"""
import json, os
import checks, propdefs

V = os.path.dirname(os.path.abspath(__file__))
NA = getattr(propdefs, "NA", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in sorted(propdefs.D):
        d = propdefs.D[i]
        assert len(d["title"]) <= 80, (i, len(d["title"]))
        for x in d["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (i, x)
        f.write(json.dumps({
            "id": i, "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"], "text": d["text"]},
            "why_tests_cant": d["why"],
            "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]], "hook_needed": None},
        }) + "\n")
chk = []
for i in sorted(checks.PROPS):
    assert i in propdefs.D, i
    thr = any(h.get("race") for h in checks.PROPS[i]["harnesses"])
    chk.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "bounded symbolic execution of the compiled crates' LLVM IR with z3" + (", all interleavings up to a preemption bound, happens-before race detection" if thr else ""),
        "level": "model_checking",
        "level_note": (propdefs.D[i]["note"] + " " if propdefs.D[i]["note"] else "") + "Holds for every value, choice and schedule within the bounds listed in the evidence; counterexamples are replayed on the same code compiled natively. Trusts the executor's IR semantics (cross-checked by native replay of sampled paths), z3, and the stand-ins listed under assumptions.",
    })
na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": chk, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(chk), "checks")
