"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json and a results file (id -> [property, rc, violations, without input, obligations])."""
import json, glob, os, sys, re
res = json.load(open(sys.argv[1]))
rows = ["| planted bug | property | needs | failed obligation (first one reported) | counterexample replayed |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = res.get(i)
    if r is None:
        ob, ct = "not run", ""
    elif r[1] != 1:
        ob, ct = "MISSED", ""
    else:
        t = r[4][0]
        g = re.match(r"failed obligation: case=(.*?) obligation=(.*?) : ", t + " : ")
        ob = f"`{g.group(1)}`: {g.group(2)}"[:150].replace("|", "\\|")
        ct = "no" if r[3] == r[2] else "yes"
    rows.append(f"| {i} | {m['property']} | {m['needs'][:140].replace('|', chr(92) + '|')} | {ob} | {ct} |")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "DESIGN.md")
s = open(p).read()
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: table, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", table)
open(p, "w").write(s)
