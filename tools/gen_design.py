#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text of tools/design_text.py around a section per property."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import notes, design_text as T  # noqa: E402
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
chk = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
out = [T.HEAD.strip(), "", "## 4. The properties, one by one", ""]
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    if i in na:
        out.append("Not applicable: %s" % na[i])
        out.append("")
        continue
    tech, note = notes.TECH[i]
    out.append("- **Decided by** %s." % tech)
    out.append("- **Quantified over / bounds:** %s" % note)
    out.append("- **Oracle:** %s" % T.ORACLE[i])
    out.append("- **Why beyond tests:** %s" % p["why_tests_cant"])
    out.append("- **Cost:** about %s s; code: `%s`." % (T.COST.get(i, "?"), T.MODULE[i]))
    if i in T.EXTRA:
        out.append("- **Notes:** %s" % T.EXTRA[i])
    out.append("")
out.append("## 5. Genuine defects found")
out.append("")
out.append(T.DEFECTS.strip())
out.append("")
for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith(("fixed:", "finding:")):
        out.append("- `%s`: %s" % (l.split(" ", 1)[0][:-1], l.split(" ", 1)[1].strip()))
out += ["", T.TAIL.strip(), "", "## 8. Planted bugs and what catches them", "", T.SEEDS.strip(), "",
        "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), T.CAUGHT.get(i, m["property"])))
out.append("")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
