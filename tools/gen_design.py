"""Rewrites the tables of DESIGN.md that come from data: planted bugs (tools/matrix.json, tools/bugs.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs

M = json.load(open(os.path.join(HERE, "matrix.json")))
out = ["<!-- table of planted bugs: tools/gen_design.py -->", "| planted bug | needs | caught by |", "|---|---|---|"]
for b in sorted(bugs.BUGS, key=lambda b: b["id"]):
    i = b["id"]
    r = M.get(i, {})
    by = ", ".join(k for k, v in r.items() if v == "caught") or "not caught"
    out.append(f"| `{i}`{' (own)' if i in bugs.OWN else ''} | {b['needs']} | {by} |")
p = os.path.join(os.path.dirname(HERE), "DESIGN.md")
s = open(p).read()
head = s.split("<!-- table of planted bugs")[0]
open(p, "w").write(head + "\n".join(out) + "\n")
print(len(out) - 3, "planted bugs;", sum("not caught" in x for x in out), "not caught")
