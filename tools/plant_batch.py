"""plant_batch.py SPEC.py [ID...]: plant the bugs listed in SPEC.py (list BUGS of dicts id, property, edits, needs, breaks, demo).

Each one is edited in a copy of /repo under /tmp/p, written to /verif/seeded/<id> and validated by tools/plant.sh; the copy is removed."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])


def one(b):
    d = "/verif/seeded/" + b["id"]
    c = "/tmp/p/" + b["id"]
    subprocess.run(["rm", "-rf", c])
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    for f, old, new, *times in b["edits"]:
        p = os.path.join(c, "src", f)
        t = open(p, newline="").read()
        nl = "\r\n" if "\r\n" in t else "\n"
        o, n = old.replace("\n", nl), new.replace("\n", nl)
        if t.count(o) != (times or [1])[0]:
            subprocess.run(["rm", "-rf", c])
            return b["id"], "text occurs %d times in %s" % (t.count(o), f)
        open(p, "w", newline="").write(t.replace(o, n))
    os.makedirs(d, exist_ok=True)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"))
    open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
    shutil.copy("/verif/seeded/load-omega-lim/demo.sh", d + "/demo.sh")
    r = subprocess.run(["bash", "/verif/tools/plant.sh", b["id"], c], capture_output=True, text=True)
    out = r.stdout + r.stderr
    subprocess.run(["rm", "-rf", c])
    good = "demo patched: nonzero" in out
    if not good:
        shutil.rmtree(d)
    return b["id"], ("OK " if good else "REJECTED ") + ("CAUGHT" if "VIOLATION property=" + b["property"] in out else "missed") + "\n" + "\n".join("     " + l[:220] for l in out.splitlines()[-6:])


with ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, [b for b in ns["BUGS"] if not only or b["id"] in only]):
        print("##", i, o, flush=True)
