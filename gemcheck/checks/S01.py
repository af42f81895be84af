"""All randomness comes from the generators that the environment's seed derives."""
from .. import terms as tm
from ..corpus import *
from ..extlib import keyof
from ..rig import S, m
from ..sources import external_uses

# names of numpy.random that carry no process-wide state
STATELESS = {"SeedSequence", "default_rng", "Generator", "BitGenerator", "PCG64", "PCG64DXSM", "Philox", "SFC64", "MT19937", "bit_generator"}
DRAWS = {"u01", "index", "choice"}


def global_use(name, call):
    p = name.split(".")
    if p[:2] == ["numpy", "random"] and len(p) > 2 and p[2] not in STATELESS:
        return "the process-wide numpy generator (%s)" % name
    if p[0] in ("random", "secrets") and len(p) > 1 and p[1] != "Random":
        return "the process-wide generator (%s)" % name
    if name in ("os.urandom", "uuid.uuid4", "uuid.uuid1", "random.Random"):
        return "fresh entropy (%s)" % name
    if call is not None and (name.endswith(".rvs")) and not any(k.arg in ("random_state", None) for k in call.keywords):
        return "scipy's process-wide generator (%s without random_state)" % name
    return None


def draws_in(v):
    for x in flat(v):
        if isinstance(x, tm.T):
            for t in tm.subterms(x):
                if t.op == "fn" and (t.args[0] in DRAWS or str(t.args[0]).startswith(("std_", "draw_"))):
                    yield t


def seeded(key, want):
    return tuple(key[:2]) == want


def short_loc(ev):
    q = ev.loc.split(" ", 1)
    return q[-1]


def run(ck):
    ck.rule("seeded-draws", "every draw made after seeding takes its numbers from a generator whose seed sequence descends from the given seed")
    ck.rule("no-foreign-entropy", "no random number from process-wide state and no fresh entropy after seeding")
    ck.rule("outputs", "states, references and rewards after seeding contain no random number drawn before or outside the seeded generators")
    ck.rule("sources", "no function of the library uses a process-wide random generator")
    uses = external_uses("gym_electric_motor")
    fun = {}
    for where, name, node, call in uses:
        fun.setdefault(where, []).append((name, call))
    for where, us in sorted(fun.items()):
        bad = [(n, g) for n, c in us for g in [global_use(n, c)] if g]
        if bad:
            ck.violation("sources", "%s %s" % (where, bad[0][0]), "uses %s" % bad[0][1])
        else:
            ck.ok("sources", where)
    ck.notes.append("%d uses of imported names or methods in %d functions resolved" % (len(uses), len(fun)))
    w = World(ck)
    seed = S("seed", "nat")
    want = ("ss", keyof(seed))
    sites = {}
    for en in entries(w):
        with ck.guard("seeded-draws", en.label):
            e = en.make(w)
            bad, n = {}, 0
            for k, lens in enumerate((3, 2, 1) if ck.tier == "quick" else (7, 5, 1, 4)):
                ep = play(w, e, lens, seed if k == 0 else None, first=k)
                for x in ep.events:
                    if x.kind in ("draw", "scipy_draw"):
                        sites[short_loc(x)] = sites.get(short_loc(x), 0) + 1
                    if x.kind in ("draw", "scipy_draw") and x.result is not None:
                        n += 1
                        if not seeded(x.result[0], want):
                            bad[("seeded-draws", "%s draw in %s" % (en.label, short_loc(x)))] = "drawn from a generator with seed %s" % (x.result[0],)
                    elif x.kind in ("global_random", "fresh_entropy"):
                        bad[("no-foreign-entropy", "%s in %s" % (en.label, short_loc(x)))] = "%s: %s" % (x.kind, x.name)
                for what, v in ep.out:
                    for t in draws_in(v):
                        if not any(a is want[0] or a == "ss" for a in flat(t.args)):
                            bad[("outputs", "%s %s" % (en.label, what))] = "contains %s" % tm.show(t)
            for (r, c), d in bad.items():
                ck.violation(r, c, d)
            for r in ("seeded-draws", "no-foreign-entropy", "outputs"):
                if not any(k[0] == r for k in bad):
                    ck.ok(r, en.label, "%d draws" % n)
    ck.notes.append("draw sites covered: %s" % ", ".join("%s x%d" % kv for kv in sorted(sites.items())))
    ck.min_decided = 400
