"""Write /verif/DESIGN.md from the property texts, the claims, the last evidence, the findings and the planted bugs."""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + "/tools/claims.py").read(), ns)
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
EV = os.environ.get("EVIDENCE", H + "/evidence")
out = [open(H + "/tools/design_head.md").read()]
out.append("## 3. Properties\n")
out.append("Counts and times are those of a run on the committed tree (quick and thorough differ where the bounds say so).\n")
WHY = "Bounded samples cannot show it: "
for p in P:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    if i in ns["CLAIMS"]:
        tech, note = ns["CLAIMS"][i]
        out.append("*Method*: %s.  \n*Bounds*: %s" % (tech.rstrip("."), note.replace(ns["TRUST"], "").strip()))
        e = json.load(open("%s/%s.json" % (EV, i)))
        c = e["coverage"]
        out.append("\n*Rules*:")
        for k, v in c["rules"].items():
            n = c["by_rule"].get(k, {})
            out.append("- `%s` (%d): %s" % (k, sum(n.values()), v))
        out.append("\n*Cost*: %d obligations over %d functions, about %d s.  *Why tests cannot*: %s\n" % (
            c["obligations"], c["functions_analysed"], max(1, round(e["wall_s"])), p["why_tests_cant"]))
    else:
        out.append("*Not applicable*: %s.\n" % ns["NOT_APPLICABLE"][i])
out.append("## 4. Genuine defects\n\nFound by the checks, confirmed against the real code.  Repaired ones (`fix:` commits) and recorded ones:\n")
fx, fd = [], []
for l in open(H + "/known_findings.txt"):
    if l.startswith("fixed:"):
        _, pid, com, what = l.split(" ", 3)
        fx.append("- %s %s: %s" % (pid.split("=")[1], com, what.strip()))
    elif l.startswith("finding:"):
        head, what = l[9:].split("|", 1)
        fd.append("- %s: %s" % (head.strip(), what.strip()))
out += ["**Recorded, not repaired** (a repair is pinned by existing tests, needs a design decision or is a missing feature)\n"] + fd + ["\n**Repaired**\n"] + fx + [""]
out.append("## 5. Planted bugs\n\nEach compiles, passes the existing tests and has a demonstration.  \"caught by\" names the check that reports it.\n")
out.append("| bug | property, caught by | needs |\n|---|---|---|")
nc = json.load(open(H + "/tools/not_caught.json")) if os.path.exists(H + "/tools/not_caught.json") else {}
for b in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, b)))
    out.append("| %s | %s%s | %s |" % (b, m["property"], " (NOT CAUGHT: %s)" % nc[b] if b in nc else "", " ".join(m["needs"].split()).replace("|", "/")))
out.append("\nMissed when planted and caught after strengthening the check: gc-ki-names (G01), cum-violation-line (Z02), "
           "visualization-own-callback and callback-filtered-state (E05), shunt-excitation-limit (M12), ramp-positive-lower (R04), names-alias (E02), observer-shared-names (E08), load-above-accepted (M11).\n")
tail = H + "/tools/design_tail.md"
if os.path.exists(tail):
    out.append(open(tail).read())
open(H + "/DESIGN.md", "w").write("\n".join(out))
