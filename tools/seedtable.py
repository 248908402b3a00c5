"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "<!-- table: tools/seedtable.py -->"
text = open(f"{root}/DESIGN.md").read().split(mark)[0]
rows = ["| id | property (caught by) | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open(f"{root}/DESIGN.md", "w").write(text + mark + "\n" + "\n".join(rows) + "\n")
