"""Combined reference generators: forwarding, concatenation, delegation and switching."""
from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m, box

PARTS = '''
from gym_electric_motor.core import ReferenceGenerator
from gym_electric_motor.random_component import RandomComponent
import numpy as np

class Part(ReferenceGenerator, RandomComponent):
    """A sub generator whose outputs tell which part, which of its resets and which call of that sub episode they come from."""
    def __init__(self, tag, names, low, high, **kw):
        ReferenceGenerator.__init__(self)
        RandomComponent.__init__(self)
        self.tag = tag
        self.kw = kw
        self._reference_names = names
        self.reference_space = BOX(low, high)
        self.resets = 0
        self.calls = 0
        self.seeded = 0
        self.given = None
        self.from_state = 0.0
        self.from_reference = 0.0

    def set_modules(self, physical_system):
        super().set_modules(physical_system)
        self.given = physical_system
        self._referenced_states = np.array([n in self._reference_names for n in physical_system.state_names])

    def value(self, what):
        return OUT(self.tag, what, self.resets, self.calls, self.from_state, self.from_reference, len(self._reference_names))

    def reset(self, initial_state=None, initial_reference=None):
        self.resets = self.resets + 1
        self.calls = 0
        self.from_state = FIRST(initial_state)
        self.from_reference = FIRST(initial_reference)
        return SPREAD(self._reference_names, self.value("initial")), self.value("first"), None

    def get_reference(self, state, **kw):
        return SPREAD(self._reference_names, self.value(("ref", FIRST(state), kw.get("extra"))))

    def get_reference_observation(self, state, **kw):
        self.calls = self.calls + 1
        return self.value(("obs", FIRST(state), kw.get("extra")))

    def seed(self, seed=None):
        self.seeded = self.seeded + 1
        self.seed_given = seed


class Plain(Part):
    pass
'''


def flat(x):
    return tuple(y for z in x for y in flat(z)) if isinstance(x, tuple) else (x,)


def out(tag, what, resets, calls, s0, r0, n):
    return arr([tm.fn("part", tag, *(flat(what) + (resets, calls, s0, r0, j))) for j in range(n)])


class Kit(EnvRig):
    def __init__(self, ck, n=None):
        super().__init__(ck)
        it = self.it
        nat = lambda name, fn: Native(name, lambda it, a, k: fn(*a, **k))

        def first(v):
            v = it.res(v)
            return 0.5 if v is None else it.iterate(v)[2]

        def spread(names, vals):
            o = [0.0] * len(NAMES)
            for k, v in zip(it.iterate(names), it.iterate(vals)):
                o[NAMES.index(k)] = v
            return arr(o)

        def produce(tag, what, *a):
            return out(it.res(tag), it.res(what), *[it.res(x) if not isinstance(x, Phi) else x for x in a])

        self.parts = it.load_text("gemspec.parts", PARTS, OUT=nat("OUT", produce), FIRST=nat("FIRST", first), SPREAD=nat("SPREAD", spread), BOX=nat("BOX", lambda lo, hi: box(it, lo, hi)))

    def part(self, tag, names, low=None, high=None):
        k = len(names)
        return self.it.call(self.parts.ns["Part"], [tag, list(names), low or [-1.0] * k, high or [1.0] * k], {})


def spread(names, vals):
    o = [0.0] * len(NAMES)
    for n, v in zip(names, vals):
        o[NAMES.index(n)] = v
    return o


def run(ck):
    ck.rule("names", "the combined generator announces the names and referenced states of its parts, in their order")
    ck.rule("space", "its reference space concatenates (or spans) those of its parts")
    ck.rule("forward", "setup, reset, reference and seed requests reach every part concerned with the data given")
    ck.rule("combine", "observations are concatenated and references summed in the order of the parts")
    ck.rule("delegate", "a switched generator returns the outputs of exactly the part drawn last, with the configured probabilities")
    ck.rule("switch", "it draws a new part exactly after the announced number of steps and resets it with the present state and reference")
    ck.rule("reject", "parts that reference the same state, or different ones within a switched generator, are rejected")
    for names in ([["u"], ["i"]], [["i"], ["torque", "omega"], ["u"]], [["u", "i"], ["omega"]], [["torque"]], [["u_sup"], ["omega"], ["u"], ["i"]]):
        cons = "multiple " + " + ".join(",".join(n) for n in names)
        with ck.guard("combine", cons):
            multiple(ck, cons, names)
    for n in (2, 3):
        for length in ((1, 2), (2, 3), 2, (3, 4)):
            for probs in (None, [0.7, 0.3] if n == 2 else [0.2, 0.5, 0.3]):
                cons = "switched %d parts, super episodes %s, p=%s" % (n, length, probs)
                with ck.guard("delegate", cons):
                    switched(ck, cons, n, length, probs)
    arguments(ck)
    seeds(ck)
    rejects(ck)
    ck.min_decided = 150


def multiple(ck, cons, names):
    kit = Kit(ck)
    it = kit.it
    # bounds in no particular order
    lows = [[-0.1 - 0.1 * ((3 * i + 2 * j + 1) % 5) for j in range(len(n))] for i, n in enumerate(names)]
    highs = [[0.25 + 0.1 * ((2 * i + 4 * j + 3) % 5) for j in range(len(n))] for i, n in enumerate(names)]
    parts = [kit.part("p%d" % i, n, lo, hi) for i, (n, lo, hi) in enumerate(zip(names, lows, highs))]
    g = it.call(ck.cls(it, "MultipleReferenceGenerator"), [list(parts)], {})
    m(it, g, "set_modules", kit.system)
    flatn = [x for n in names for x in n]
    ck.require("names", cons, list(it.iterate(it.getattr(g, "reference_names"))) == flatn, "announces %s" % (it.getattr(g, "reference_names"),))
    for i, (n, part) in enumerate(zip(names, parts)):
        got = list(it.iterate(it.getattr(part, "reference_names")))
        ck.require("names", "%s part %d" % (cons, i), got == n, "the part announces %s afterwards" % (got,))
    ck.eq("names", cons + " referenced states", it.getattr(g, "referenced_states"), [n in flatn for n in NAMES], it=it)
    sp = it.res(it.getattr(g, "reference_space"))
    ck.eq("space", cons + " low", it.getattr(sp, "low"), [x for l in lows for x in l], it=it)
    ck.eq("space", cons + " high", it.getattr(sp, "high"), [x for l in highs for x in l], it=it)
    for i, p in enumerate(parts):
        ck.require("forward", "%s setup of part %d" % (cons, i), it.res(p.attrs.get("given")) is kit.system, "the part is not set up with the physical system")
        ck.require("forward", "%s names of part %d" % (cons, i), list(it.iterate(it.getattr(p, "reference_names"))) == names[i], "the part's own names changed to %s" % (it.getattr(p, "reference_names"),))
    for ep in range(3):
        s0 = arr([S("s%d_%d" % (ep, j)) for j in range(5)])
        r0 = arr([S("r%d_%d" % (ep, j)) for j in range(5)]) if ep % 2 else None
        r = it.iterate(m(it, g, "reset", s0, r0) if ep % 2 else m(it, g, "reset", s0))
        a = (s0[2], r0[2] if ep % 2 else 0.5)
        exp = lambda what, calls: [list(out("p%d" % i, what, ep + 1, calls, a[0], a[1], len(n))) for i, n in enumerate(names)]
        cat = lambda v: [x for l in v for x in l]
        ck.eq("combine", "%s reset %d reference" % (cons, ep), r[0], spread(flatn, cat(exp("initial", 0))), it=it)
        ck.eq("combine", "%s reset %d observation" % (cons, ep), r[1], cat(exp("first", 0)), it=it)
        for k in range(3):
            st = arr([S("y%d_%d_%d" % (ep, k, j)) for j in range(5)])
            kw = dict(extra=S("extra")) if k == 1 else {}
            ref = m(it, g, "get_reference", st, **kw)
            ck.eq("combine", "%s episode %d reference %d" % (cons, ep, k), ref, spread(flatn, cat(exp(("ref", st[2], kw.get("extra")), k))), it=it)
            ob = m(it, g, "get_reference_observation", st, **kw)
            ck.eq("combine", "%s episode %d observation %d" % (cons, ep, k), ob, cat(exp(("obs", st[2], kw.get("extra")), k + 1)), it=it)


def switched(ck, cons, n, length, probs):
    kit = Kit(ck)
    it = kit.it
    lows = [[-0.1 * (1 + (i * 2) % 3)] for i in range(n)]
    highs = [[0.2 * (1 + (i * 2 + 1) % 3)] for i in range(n)]
    parts = [kit.part("p%d" % i, ["i"], lo, hi) for i, (lo, hi) in enumerate(zip(lows, highs))]
    kw = dict(super_episode_length=length)
    if probs:
        kw["p"] = list(probs)
    g = it.call(ck.cls(it, "SwitchedReferenceGenerator"), [list(parts)], kw)
    m(it, g, "set_modules", kit.system)
    ck.require("names", cons, list(it.iterate(it.getattr(g, "reference_names"))) == ["i"], "announces %s" % (it.getattr(g, "reference_names"),))
    ck.eq("names", cons + " referenced states", it.getattr(g, "referenced_states"), [x == "i" for x in NAMES], it=it)
    sp = it.res(it.getattr(g, "reference_space"))
    ck.eq("space", cons + " low", it.getattr(sp, "low"), [min(l[0] for l in lows)], it=it)
    ck.eq("space", cons + " high", it.getattr(sp, "high"), [max(h[0] for h in highs)], it=it)
    for i, p in enumerate(parts):
        ck.require("forward", "%s setup of part %d" % (cons, i), it.res(p.attrs.get("given")) is kit.system, "the part is not set up with the physical system")
    lo, hi = length if isinstance(length, tuple) else (length, length + 1)
    want_p = list(probs) if probs else [1.0 / n] * n
    resets, calls, args = [0] * n, [0] * n, [(0.0, 0.0)] * n
    active = None

    def drawn(where):
        """The part chosen since the last call, if any."""
        nonlocal active, mark
        ev = [e for e in it.events[mark:] if e.kind == "draw" and e.name == "choice" and getattr(e, "choice", None)]
        mark = len(it.events)
        if not ev:
            return False
        ck.require("delegate", "%s one choice per switch" % cons, len(ev) == 1, "%d draws at %s" % (len(ev), where))
        ix, items, p = ev[0].choice
        order = [next((i for i, q in enumerate(parts) if it.res(x) is q), None) for x in items]
        if None in order:
            ck.violation("delegate", cons + " candidates", "chooses among %s" % (items,))
            return False
        prob = [None] * n
        for i, q in zip(order, p or [1.0 / len(items)] * len(items)):
            prob[i] = q
        ck.require("delegate", cons + " probabilities", all(q is not None and abs(q - w) < 1e-12 for q, w in zip(prob, want_p)), "probabilities %s instead of %s" % (prob, want_p))
        active = [tm.eq(ix, order.index(i)) for i in range(n)]
        return True

    def pick(vals):
        v = vals[-1]
        for i in range(n - 2, -1, -1):
            v = tm.ite(active[i], vals[i], v)
        return v

    def restart(s, r):
        for i in range(n):
            resets[i] = tm.ite(active[i], tm.add(resets[i], 1), resets[i])
            calls[i] = tm.ite(active[i], 0, calls[i])
            args[i] = (tm.ite(active[i], s, args[i][0]), tm.ite(active[i], r, args[i][1]))

    def value(what):
        return pick([out("p%d" % i, what, resets[i], calls[i], args[i][0], args[i][1], 1)[0] for i in range(n)])

    for ep in range(2):
        mark = len(it.events)
        s0 = arr([S("s%d_%d" % (ep, j)) for j in range(5)])
        r0 = arr([S("r%d_%d" % (ep, j)) for j in range(5)]) if ep % 2 else None
        r = it.iterate(m(it, g, "reset", s0, r0) if ep % 2 else m(it, g, "reset", s0))
        if not drawn("reset"):
            ck.violation("switch", cons + " reset", "no part is drawn at the episode start")
            return
        restart(s0[2], r0[2] if ep % 2 else 0.5)
        ck.eq("delegate", "%s reset %d reference" % (cons, ep), r[0], spread(["i"], [value("initial")]), it=it)
        ck.eq("delegate", "%s reset %d observation" % (cons, ep), r[1], [value("first")], it=it)
        since, first = 1, True
        for k in range(2 * hi + 1 if hi < 3 else hi + 2):
            st = arr([S("y%d_%d_%d" % (ep, k, j)) for j in range(5)])
            kw = dict(extra=S("extra")) if k == 1 else {}
            ref = m(it, g, "get_reference", st, **kw)
            last = value(("ref", st[2], kw.get("extra")))
            ck.eq("delegate", "%s episode %d reference %d" % (cons, ep, k), ref, spread(["i"], [last]), it=it)
            ob = m(it, g, "get_reference_observation", st, **kw)
            if drawn("step %d" % k):
                ck.require("switch", "%s episode %d step %d" % (cons, ep, k), lo <= since <= hi, "the part was used for %d steps" % since)
                restart(st[2], last)
                ck.eq("switch", "%s episode %d observation %d after switching" % (cons, ep, k), ob, [value("first")], it=it)
                since = 1
            else:
                since += 1
                ck.require("switch", "%s episode %d step %d" % (cons, ep, k), since <= hi, "the part is used for more than %d steps" % hi)
                calls[:] = [tm.ite(active[i], tm.add(calls[i], 1), calls[i]) for i in range(n)]
                ck.eq("delegate", "%s episode %d observation %d" % (cons, ep, k), ob, [value(("obs", st[2], kw.get("extra")))], it=it)


def arguments(ck):
    """Parts given as classes with one or several argument dictionaries."""
    for lab in ("dict", "list", "kwargs"):
        cons = "multiple, classes with %s" % lab
        with ck.guard("forward", cons):
            kit = Kit(ck)
            it = kit.it
            c, d = kit.parts.ns["Part"], kit.parts.ns["Plain"]
            if lab == "list":
                args = [dict(tag="a", names=["i"], low=[-1.0], high=[1.0]), dict(tag="b", names=["u"], low=[-0.5], high=[0.5])]
                g = it.call(ck.cls(it, "MultipleReferenceGenerator"), [[c, d]], dict(sub_args=args))
                want = ["a", "b"]
            elif lab == "dict":
                g = it.call(ck.cls(it, "MultipleReferenceGenerator"), [[c]], dict(sub_args=dict(tag="a", names=["i"], low=[-1.0], high=[1.0])))
                want = ["a"]
            else:
                g = it.call(ck.cls(it, "MultipleReferenceGenerator"), [[c]], dict(tag="a", names=["i"], low=[-1.0], high=[1.0]))
                want = ["a"]
            m(it, g, "set_modules", kit.system)
            o = it.iterate(it.iterate(m(it, g, "reset", arr([0.0] * 5)))[1])
            got = [x.args[1] for x in o if isinstance(x, tm.T) and x.op == "fn"]
            ck.require("forward", cons, got == want, "observations of parts %s instead of %s" % (got, want))


def seeds(ck):
    for name in ("MultipleReferenceGenerator", "SwitchedReferenceGenerator"):
        cons = "%s seed" % name
        with ck.guard("forward", cons):
            kit = Kit(ck)
            it = kit.it
            parts = [kit.part("p%d" % i, [x]) for i, x in enumerate(("u", "i", "omega") if "Mult" in name else ("i", "i", "i"))]
            const = it.call(ck.cls(it, "ConstReferenceGenerator"), [], dict(reference_state="torque" if "Mult" in name else "i"))
            g = it.call(ck.cls(it, name), [parts[:1] + [const] + parts[1:]], {})
            base = it.call(Ext("numpy.random.SeedSequence"), [S("seed", "nat")], {})
            m(it, g, "seed", base)
            for i, p in enumerate(parts):
                ck.require("forward", "%s reaches part %d" % (cons, i), p.attrs.get("seeded") == 1, "seeded %s times" % p.attrs.get("seeded"))


def rejects(ck):
    for name, states, lab in (
        ("MultipleReferenceGenerator", (["i"], ["u"], ["i"]), "shared state"),
        ("MultipleReferenceGenerator", (["omega", "u"], ["u"]), "overlapping states"),
        ("SwitchedReferenceGenerator", (["i"], ["u"]), "different states"),
    ):
        cons = "%s %s" % (name, lab)
        kit = Kit(ck)
        it = kit.it
        try:
            g = it.call(ck.cls(it, name), [[kit.part("p%d" % i, s) for i, s in enumerate(states)]], {})
            m(it, g, "set_modules", kit.system)
            ck.violation("reject", cons, "accepted")
        except AbsRaise:
            ck.ok("reject", cons)
