"""Seed distribution: every random generator reachable in an environment descends from the given seed, and no two agree."""
from ..check import norm
from ..corpus import *
from ..extlib import keyof
from ..rig import S, m
from ..values import *


def holders(it, e):
    """(label, holder object, attribute, random object) for every generator and seed sequence in the object graph."""
    out = []
    for path, o in reachable(it, e):
        if o.extname:
            continue
        n = 0
        for k, v in o.attrs.items():
            for x in phi_alternatives(v):
                if isinstance(x, Obj) and x.extname and x.extname.startswith("numpy.random.") and "key" in x.attrs:
                    out.append(("%s.%s" % (path, k), o, k, x))
    return out


def short_path(p):
    return p.replace("env._", "env.").replace("._", ".")


def run(ck):
    ck.rule("reached", "after seeding every generator and seed sequence held by any component descends from the given seed")
    ck.rule("own-seed", "no two components hold the same seed sequence, no two generators produce the same stream")
    ck.rule("all-components", "every random component of the object graph was given a seed sequence of its own by the seeding")
    ck.rule("reseed", "seeding again with another seed replaces all of them; the sub-seed of a component is a function of the seed alone")
    w = World(ck)
    it = w.it
    rc = ck.cls(it, "RandomComponent")
    s1, s2 = S("seed", "nat"), S("second seed", "nat")
    total = 0
    for en in entries(w):
        with ck.guard("reached", en.label):
            e = en.make(w)
            graph = [o for _, o in reachable(it, e) if isinstance(o.cls, Cls) and o.cls.issub(rc)]
            total += len(graph)
            shapes = []
            for rnd_, seed in enumerate((s1, s2, s1)):
                want = ("ss", keyof(seed))
                m(it, e, "reset", seed=seed)
                hs = holders(it, e)
                bad = [(p, x) for p, o, k, x in hs if tuple(x.attrs["key"][:2]) != want]
                rule = "reached" if rnd_ == 0 else "reseed"
                for p, x in bad:
                    ck.violation(rule, "%s %s" % (en.label, short_path(p)), "keeps a generator with seed %s" % (x.attrs["key"],))
                if not bad:
                    ck.ok(rule, en.label, "%d random objects" % len(hs))
                # one seed sequence and one stream per component
                owner = {}
                clash = []
                for p, o, k, x in hs:
                    kind = x.extname.rsplit(".", 1)[-1]
                    key = (kind, x.attrs["key"])
                    if key in owner and owner[key][0] is not o:
                        clash.append((p, owner[key][1]))
                    owner.setdefault(key, (o, p))
                    # a seed sequence and a generator of different components must not be the same stream either
                for p, q in clash:
                    ck.violation("own-seed", "%s %s" % (en.label, short_path(p)), "has the same seed as %s" % short_path(q))
                if not clash:
                    ck.ok("own-seed", en.label)
                shapes.append(sorted((short_path(p), tuple(x.attrs["key"][2:])) for p, o, k, x in hs))
                missing = [o for o in graph if not any(q is o for _, q, _, _ in hs)]
                ck.require("all-components", en.label, not missing, "no seeded generator in %s" % [o.cls.name for o in missing])
            ck.require("reseed", en.label + " repeated", shapes[0] == shapes[2], "the sub-seeds of the second seeding with the same seed differ: %s" % ([a for a, b in zip(shapes[0], shapes[2]) if a != b][:2],))
    ck.notes.append("%d random components found in the object graphs" % total)
    ck.require("all-components", "random components in the corpus", total >= 300, "only %d" % total)
    ck.min_decided = 600
