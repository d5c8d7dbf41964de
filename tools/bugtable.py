"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)"""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in glob.glob("seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
L = open("DESIGN.md").read().split("\n")
i = L.index("| check | planted bug | what it breaks |") + 2
j = i
while L[j].startswith("|"):
    j += 1
L[i:j] = [f"| {a} | {b} | {c} |" for a, b, c in sorted(rows)]
open("DESIGN.md", "w").write("\n".join(L))
