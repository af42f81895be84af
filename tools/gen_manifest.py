"""Write /verif/MANIFEST.json from the list of claimed checks (run: python3 tools/gen_manifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for pid in props:
    if pid in CLAIMS:
        tech, note = CLAIMS[pid]
        checks.append(
            dict(
                property=pid,
                quick_cmd="python3-vt -B -m gemcheck.check %s" % pid,
                thorough_cmd="VERIF_TIER=thorough python3-vt -B -m gemcheck.check %s" % pid,
                technique=tech,
                level="other",
                level_note=note,
            )
        )
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")) for p in props if p not in CLAIMS]
json.dump(
    dict(
        version=1,
        setup_cmd="python3-vt -B -c 'import gemcheck.check, numpy'",
        checks=checks,
        not_applicable=na,
        notes="All checks are one static analyser (gemcheck) reading /repo/src; nothing of /repo is imported or executed.",
    ),
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "claimed", len(na), "not")
