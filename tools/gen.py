#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table in table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS, NOTE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "contract-based deductive verification: weakest-precondition style symbolic execution of the real Go SSA with closed-form loop invariants, discharged by algebraic normalisation and z3/cvc5",
        "level": "proof",
        "level_note": (p["note"] + " " + NOTE).strip(),
        "theorems": p.get("thms", []),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# generated parts of DESIGN.md
import re, glob
def contracts():
    out = {}
    for f in sorted(glob.glob(root + "/contracts/**/*.go", recursive=True)):
        props, doc = [], ""
        for l in open(f):
            if m := re.match(r"//verif:property\s+(.*)", l):
                props = re.split(r"[,\s]+", m[1].strip())
            elif m := re.match(r"func ((?:Contract|Lemma)_\w+)", l):
                for p in props:
                    out.setdefault(p, []).append(m[1].split("_", 1)[1])
                props = []
    return out
cs = contracts()
t = []
for p in PROPS:
    t.append("* **%s %s.** " % (p["id"], p["title"]))
    if p.get("na"):
        t.append("  Not applicable: %s" % p["na"])
        continue
    t.append("  %s" % p["note"] if p["note"] else "  Proved for all inputs.")
    t.append("  Anchors: %s." % "; ".join(w for _, w in p["mech"]))
    t.append("  Contracts (%d): %s." % (len(cs.get(p["id"], [])), ", ".join(cs.get(p["id"], []))))
fx = ["* " + x[len("fixed: property="):] for x in json.load(open(root + "/known_findings.json"))["Fixed"]]
fs = ["* FINDING " + x["Property"] + ": " + x["What"] for x in json.load(open(root + "/known_findings.json"))["Findings"]]
sd = []
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    sd.append("* `%s` (caught by check %s): %s; needs %s." % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
s = open(root + "/DESIGN.md").read()
for tag, lines in (("generated", t), ("fixed", fx + fs), ("seeds", sd)):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    s = s[:s.index(a) + len(a)] + "\n" + "\n".join(lines) + "\n" + s[s.index(b):]
open(root + "/DESIGN.md", "w").write(s)
