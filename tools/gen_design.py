"""DESIGN.md = tools/design_head.md + table of the planted bugs + tools/design_tail.md."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(R + "/tools/design_head.md").read().rstrip() + "\n"
out += """
## Planted bugs and what catches them

Each lies in `seeded/<id>/` (patch, demonstration, meta data), was written from the statement of the property,
passes the existing tests and was run against the check of its property with `tools/seeds/try.sh`. All listed
ones are caught by the quick check of the property named.

| id | caught by | manifests with | breaks |
|---|---|---|---|
"""
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    esc = lambda t: t.replace("|", "\\|")
    out += f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} |\n"
t = R + "/tools/design_tail.md"
if os.path.exists(t):
    out += "\n" + open(t).read()
open(R + "/DESIGN.md", "w").write(out)
