"""Fills the tables of DESIGN.md from tools/design_data.py, known-findings.json and seeded/ (DESIGN.in.md is the text)."""
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "tools"); sys.path.insert(0, ".")
from design_data import HOW
titles = {}
for l in open("properties.jsonl"):
    d = json.loads(l); titles[d["id"]] = d["title"]
claimed = {c["property_id"] if "property_id" in c else c.get("property") for c in json.load(open("MANIFEST.json"))["checks"]}
out = []
for i in sorted(titles):
    out.append("### %s %s\n" % (i, titles[i]))
    out.append(HOW.get(i, "").strip() + "\n" if i in claimed else "(no check yet) " + HOW.get(i, "").strip() + "\n")
props = "\n".join(out)
f = json.load(open("known-findings.json"))
fs = "\n".join("* `%s` (%s, %s): %s" % (e["id"], e["property"], e["status"], e["what"].replace("fixed: property=%s " % e["property"], "")) for e in f)
rows = ["| bug | property | caught by | what it breaks | needs |", "|---|---|---|---|---|"]
for b in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % b))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m.get("caught_by", "%s quick" % m["property"]), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
t = open("DESIGN.in.md").read()
for k, v in (("@@PROPS@@", props), ("@@FINDINGS@@", fs), ("@@BUGS@@", "\n".join(rows))):
    t = t.replace(k, v)
open("DESIGN.md", "w").write(t)
