"""Writes DESIGN.md from tools/DESIGN.in.md, MANIFEST.json, known_findings.txt and seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f"{R}/tools/DESIGN.in.md").read()
na = "\n".join(f"* **{x['property']}**: {x['reason']}." for x in json.load(open(f"{R}/MANIFEST.json"))["not_applicable"])
nf = sum(l.startswith("fixed:") for l in open(f"{R}/known_findings.txt"))
rows = ["| change | property | caught by | what it does |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{R}/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m.get('caught_by', m['property'])} | {m['what_it_breaks']} |")
t = t.replace("@NA@", na).replace("@NFIX@", str(nf)).replace("@SEEDS@", "\n".join(rows))
open(f"{R}/DESIGN.md", "w").write(t)
