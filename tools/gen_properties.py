"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
G = "src/gym_electric_motor/"
C = "src/gem_controllers/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())
if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        # at most three sentences
        s = [x for x in p["statement"].replace("e.g.", "eg").replace("i.e.", "ie").split(". ") if x.strip()]
        assert len(s) <= 3, (p["id"], len(s))
    with open("/verif/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
