"""writes DESIGN.md from the catalogue, the notes on bounds below, the known findings and the planted bugs"""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import catalog
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
notes = {}
for l in open(T + "/design_bounds.txt"):
    if l.strip(): k, v = l.split(" ", 1); notes[k] = v.strip()
o = open(T + "/design_head.md").read() + "## Properties and how each is decided\n"
for p in catalog.P:
    o += "* **%s %s** - spec `%s`. %s\n  Not reachable by tests: %s\n" % (p["id"], p["title"], p["spec"], p["note"], p["why"])
    if p["id"] in notes: o += "  Bounds, oracle, cost: %s\n" % notes[p["id"]]
if catalog.NA: o += "\nNot applicable: " + "; ".join("%s (%s)" % x for x in catalog.NA) + "\n"
o += "\n" + open(T + "/design_tail.md").read()
o += "\n## Defects found\nAll were shown against the real code by a generated behaviour; the list with commits is known_findings.json.\n"
for f in json.load(open(V + "/known_findings.json"))["findings"]: o += "* %s%s\n" % ("" if f["status"] == "fixed" else "known: property=%s " % f["property"], f["what"])
o += "\n## Planted bugs and the checks that catch them\n| id | caught by | needs | breaks |\n|---|---|---|---|\n"
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); o += "| %s | %s | %s | %s |\n" % (m.split("/")[-2], j.get("caught", j["property"]), j["needs"], j["what_it_breaks"])
open(V + "/DESIGN.md", "w").write(o)
