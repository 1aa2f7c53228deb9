"""Fills the generated parts of DESIGN.md: tools/design.md -> DESIGN.md (findings, planted bugs)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "tools", "design.md")).read()
k = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
s = s.replace("@FINDINGS@", "\n" + "\n".join("* " + f["text"].replace("fixed: property=", "") for f in k) + "\n")
res = {}
p = os.path.join(V, "tools", "plants", "results.txt")
for line in open(p) if os.path.exists(p) else []:
    if ": exit" in line:
        i, r = line.strip().split(": ", 1)
        res[i] = r
rows = ["", "| planted bug | needs | quick check |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = res.get(i, "not run")
    v = "not run" if r == "not run" else "missed" if r.startswith("exit 0") else (
        f"{m['property']}: " + r.split(": ", 1)[1].split(":")[0] if r.startswith("exit 1") else r)
    rows.append(f"| {i} | {m['needs']} | {v} |")
s = s.replace("@PLANTS@", "\n".join(rows) + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write(s)
