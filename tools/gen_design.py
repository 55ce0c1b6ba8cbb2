#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, the workload descriptions registered in the harness, the notes below and the table of planted bugs"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
rules = {}
for f in glob.glob(os.path.join(V, "harness/cmd/vrun/*.go")):
    for m in re.finditer(r'register\("(C\d+)", "((?:[^"\\]|\\.)*)"', open(f).read()):
        rules[m.group(1)] = m.group(2)
notes = json.load(open(os.path.join(V, "tools/design_notes.json")))
out = [open(os.path.join(V, "tools/design_head.md")).read().rstrip() + "\n"]
for p in props:
    i = p["id"]
    out.append("### %s %s\n\n* Observed: %s\n* Oracle and bounds: %s\n* Beyond the tests: %s\n" % (i, p["title"], rules[i], notes[i], p["why_tests_cant"]))
out.append(open(os.path.join(V, "tools/design_tail.md")).read().rstrip() + "\n")
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", "?")))
out.append("| id | property | what it breaks | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
