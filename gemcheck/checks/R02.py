"""The reference observation of one step is the reference applied in the next; every trajectory value is used once."""
from .. import terms as tm
from ..check import norm, short
from ..envstub import *
from ..interp import arr
from ..rig import S, m, box

SINGLE = (
    "SinusoidalReferenceGenerator", "StepReferenceGenerator", "TriangularReferenceGenerator", "SawtoothReferenceGenerator",
    "WienerProcessReferenceGenerator", "LaplaceProcessReferenceGenerator",
)
TRAJECTORY = '''
from gym_electric_motor.reference_generators import SubepisodedReferenceGenerator

class Trajectory(SubepisodedReferenceGenerator):
    """A user-defined trajectory: every value of every sub episode is a symbol of its own."""
    def _reset_reference(self):
        self._reference = VALUES(self._current_episode_length)

class Counted(SubepisodedReferenceGenerator):
    """The same as a part of combined generators: tells its name and when it is reset."""
    tag = ""
    def reset(self, *args, **kwargs):
        RESET(self.tag)
        return super().reset(*args, **kwargs)
    def _reset_reference(self):
        self._reference = VALUES(self._current_episode_length, self.tag)
'''


def prepare(rg):
    it = rg.it
    rg.system.attrs["_state_space"] = box(it, [-1.0] * 5, [1.0] * 5)
    rg.system.attrs["_lim"] = arr([4.0] * 5)
    rg.system.attrs["_nom"] = arr([3.0] * 5)


def single(ck, rg, name, state="i", **kw):
    if name == "ConstReferenceGenerator":
        return rg.it.call(ck.cls(rg.it, name), [], dict(reference_state=state, reference_value=S("constant " + state, ("range", -1, 1))))
    return rg.it.call(ck.cls(rg.it, name), [], dict(reference_state=state, **kw))


def build(ck, rg, kind, length):
    """(generator, names of the referenced states)"""
    it = rg.it
    if kind == "multiple":
        states = ("u", "omega", "i")
        subs = [single(ck, rg, n, s, episode_lengths=l) for n, s, l in zip(SINGLE[2:], states, (length, length + 1, 2))]
        return it.call(ck.cls(it, "MultipleReferenceGenerator"), [subs], {}), list(states)
    if kind.startswith("switched"):
        names = SINGLE[3:] if "process" in kind else (SINGLE[0], "ConstReferenceGenerator", SINGLE[4])
        subs = [single(ck, rg, n, "i", episode_lengths=2) if n != "ConstReferenceGenerator" else single(ck, rg, n, "i") for n in names]
        return it.call(ck.cls(it, "SwitchedReferenceGenerator"), [subs], dict(super_episode_length=(length, length + 1))), ["i"]
    if kind == "multiple of switched":
        subs = [single(ck, rg, n, "i", episode_lengths=2) for n in SINGLE[4:]]
        sw = it.call(ck.cls(it, "SwitchedReferenceGenerator"), [subs], dict(super_episode_length=(length, length + 1)))
        return it.call(ck.cls(it, "MultipleReferenceGenerator"), [[single(ck, rg, SINGLE[0], "u", episode_lengths=length), sw]], {}), ["u", "i"]
    if kind == "zero":
        return it.call(ck.cls(it, "ZeroReferenceGenerator"), [], {}), []
    return single(ck, rg, kind, "i", episode_lengths=length), ["i"]


def vector(states, values):
    out = [0.0] * len(NAMES)
    for s, v in zip(states, values):
        out[NAMES.index(s)] = v
    return out


def run(ck):
    ck.rule("next-is-applied", "the reference returned for a step equals the observation handed out before, at the slot of the referenced state, and zero elsewhere")
    ck.rule("initial", "reset returns the given initial reference and the observation of the first step's reference")
    ck.rule("consumed-once", "successive observations run through the trajectory value by value, none skipped or repeated")
    ck.rule("environment", "the reference used for the reward of a step is the one announced in the observation of the previous step or reset")
    kinds = SINGLE + ("ConstReferenceGenerator", "multiple", "switched", "switched processes", "multiple of switched", "zero")
    n_step = 6 if ck.tier == "quick" else 12
    for kind in kinds:
        for length in (1, 2, 3, 5) if kind not in ("zero", "ConstReferenceGenerator") else (1,):
            cons = "%s length %d" % (kind, length)
            with ck.guard("next-is-applied", cons):
                rg = EnvRig(ck)
                it = rg.it
                prepare(rg)
                g, states = build(ck, rg, kind, length)
                m(it, g, "set_modules", rg.system)
                sw = "switched" in kind
                for ep in range(2 if sw else 3):
                    st = arr([S("x%d_%d" % (ep, j)) for j in range(5)])
                    first = None
                    if ep == 1:
                        first = arr([S("first%d" % j, ("range", -0.7, 0.7)) for j in range(5)])
                    r = it.iterate(m(it, g, "reset", st, first) if first is not None else m(it, g, "reset", st))
                    if first is not None and "Const" not in kind and not (kind == "switched"):
                        ck.eq("initial", cons, r[0], vector(states, [first[NAMES.index(s)] for s in states]), it=it)
                    obs = r[1]
                    ck.require("next-is-applied", "%s width" % cons, len(it.iterate(obs)) == len(states), "observation %s for the states %s" % (obs, states))
                    for k in range(n_step * 2 // 3 if sw else n_step):
                        want = vector(states, norm(obs, it))
                        st = arr([S("y%d_%d_%d" % (ep, k, j)) for j in range(5)])
                        ref = m(it, g, "get_reference", st)
                        ck.eq("next-is-applied", "%s episode %d step %d" % (cons, ep, k), ref, want, it=it)
                        obs = m(it, g, "get_reference_observation", st)
            with ck.guard("environment", cons):
                in_env(ck, kind, length)
    consumption(ck)
    parts_consumption(ck)
    processes(ck)
    waves(ck)
    ck.min_decided = 400


def in_env(ck, kind, length):
    rg = EnvRig(ck)
    it = rg.it
    prepare(rg)
    g, states = build(ck, rg, kind, length)
    w = rg.make("Cb", "cb")
    rg.env(reference_generator=g, callbacks=[w])
    for ep in range(2):
        ob = it.iterate(it.iterate(rg.reset())[0])[1]
        rg.take()
        for k in range(4):
            want = vector(states, norm(ob, it))
            _, res = rg.step()
            log = rg.take()
            used = of(log, "reward.reward")
            for what, i in (("reward.reward", 3), ("cb.on_step_end", 4)):
                ev = of(log, what)
                ck.require("environment", "%s length %d calls of %s" % (kind, length, what), len(ev) == 1, "%d calls" % len(ev))
                ck.eq("environment", "%s length %d episode %d step %d %s" % (kind, length, ep, k, what), ev[0][i], want, it=it)
            ob = it.iterate(it.iterate(res)[0])[1]


def consumption(ck):
    """A trajectory of distinct symbols is handed out element by element."""
    for length in (1, 2, 3, 4):
        cons = "trajectory of %d values" % length
        with ck.guard("consumed-once", cons, must_return=False):
            rg = EnvRig(ck)
            it = rg.it
            prepare(rg)
            made = []

            def values(i, a, k):
                n = norm(a[0], i)
                v = [S("traj%d_%d" % (len(made), j)) for j in range(int(n))]
                made.append(v)
                return arr(v)

            mod = it.load_text("gemspec.trajectory", TRAJECTORY, VALUES=Native("VALUES", values), RESET=None)
            g = it.call(mod.ns["Trajectory"], [], dict(reference_state="i", episode_lengths=length))
            m(it, g, "set_modules", rg.system)
            for ep in range(3):
                del made[:]
                st = arr([0.0] * 5)
                got = [it.iterate(it.iterate(m(it, g, "reset", st))[1])[0]]
                for _ in range(7 + ep):
                    m(it, g, "get_reference", st)
                    got.append(it.iterate(m(it, g, "get_reference_observation", st))[0])
                ck.require("consumed-once", "%s, lengths" % cons, all(len(v) == length for v in made), "sub episodes of %s values" % [len(v) for v in made])
                ck.eq("consumed-once", "%s episode %d" % (cons, ep), got, [x for v in made for x in v][: len(got)], it=it)


def parts_consumption(ck):
    """Within combined generators each part still hands out its values one by one; a switch starts the new part's trajectory at its first value."""
    plans = [(a, b, c, d) for a, b, c in (("switched", (3,), 2), ("switched", (2, 5), 3), ("switched", (4, 4, 2), 4), ("switched", (9,), 1), ("multiple", (2, 3), None), ("multiple", (1, 4, 3), None), ("multiple of switched", (3, 5, 2), 2)) for d in ((0,), (1, 0), (1, 1, 0, 2)) if "switched" in a or d == (0,)]
    for combine, lens, sup, order in plans:
        cons = "%s of trajectories of %s values, switching after %s, choosing %s" % (combine, lens, sup, order)
        with ck.guard("consumed-once", cons):
            rg = EnvRig(ck)
            it = rg.it
            prepare(rg)
            hist = {}  # tag -> values still to be handed out of its present trajectory and those made since the last reset

            def values(i, a, k):
                v = [S("%s#%d_%d" % (a[1], len(hist["made"]), j)) for j in range(int(norm(a[0], i)))]
                hist["made"].append(v)
                hist["todo"].setdefault(a[1], []).extend(v)
                return arr(v)

            def reset(i, a, k):
                hist["todo"][a[0]] = []
                hist["active"][a[0][0]] = a[0]
                return None

            hist.update(made=[], todo={}, active={}, draws=0)

            def pick(n):
                hist["draws"] += 1
                return order[hist["draws"] % len(order)] % n

            it.ext.pick = pick
            mod = it.load_text("gemspec.trajectory", TRAJECTORY, VALUES=Native("VALUES", values), RESET=Native("RESET", reset))
            parts = []
            for j, n in enumerate(lens):
                p = it.call(mod.ns["Counted"], [], dict(reference_state="i" if combine == "switched" else ("i", "u", "u")[j] if combine != "multiple" else ("i", "u", "omega")[j], episode_lengths=n))
                group = 0 if combine == "switched" else j if combine == "multiple" else min(j, 1)
                it.setattr(p, "tag", "%d.%d" % (group, j))
                parts.append(p)
            sw = lambda ps: it.call(ck.cls(it, "SwitchedReferenceGenerator"), [ps], dict(super_episode_length=(sup, sup + 1)))
            mult = lambda ps: it.call(ck.cls(it, "MultipleReferenceGenerator"), [ps], {})
            g = sw(parts) if combine == "switched" else mult(parts) if combine == "multiple" else mult([parts[0], sw(parts[1:])])
            m(it, g, "set_modules", rg.system)
            for ep in range(2):
                hist.update(todo={}, active={})
                st = arr([0.0] * 5)
                o = it.iterate(it.iterate(m(it, g, "reset", st))[1])
                for k in range(9):
                    groups = sorted(hist["active"])
                    want = []
                    for q in groups:
                        left = hist["todo"][hist["active"][q]]
                        want.append(left.pop(0) if left else "nothing left")
                    ck.require("consumed-once", "%s episode %d step %d" % (cons, ep, k), [norm(x, it) for x in o] == want, "hands out %s, next is %s" % (short([norm(x, it) for x in o]), short(want)))
                    m(it, g, "get_reference", st)
                    o = it.iterate(m(it, g, "get_reference_observation", st))


def noise(v, kinds=("std_normal", "std_laplace")):
    return {x for x in tm.subterms(v) if isinstance(x, tm.T) and x.op == "fn" and x.args[0] in kinds}


def processes(ck):
    """Each step of a random process adds exactly one new increment."""
    for name in SINGLE[4:]:
        for length in (1, 2, 3):
            cons = "%s sub episodes of %d" % (name, length)
            with ck.guard("consumed-once", cons):
                rg = EnvRig(ck)
                it = rg.it
                prepare(rg)
                g = single(ck, rg, name, "i", episode_lengths=length)
                m(it, g, "set_modules", rg.system)
                st = arr([0.0] * 5)
                seen = set()
                o = it.iterate(it.iterate(m(it, g, "reset", st))[1])[0]
                for k in range(6):
                    new = noise(o) - seen
                    ck.require("consumed-once", "%s step %d" % (cons, k), len(new) == 1 and len(noise(o)) == k + 1, "%d new increments, %d in total after %d values" % (len(new), len(noise(o)), k + 1))
                    seen |= new
                    m(it, g, "get_reference", st)
                    o = it.iterate(m(it, g, "get_reference_observation", st))[0]


def waves(ck):
    """Within a sub episode the phase of a periodic reference advances by its frequency times the sampling time."""
    for name, f in ((SINGLE[0], "sin"), (SINGLE[2], "sawtooth"), (SINGLE[3], "sawtooth")):
        length = 5
        with ck.guard("consumed-once", name + " phase"):
            rg = EnvRig(ck)
            it = rg.it
            prepare(rg)
            lo, hi = 3.0, 8.0
            g = single(ck, rg, name, "i", episode_lengths=length, frequency_range=(lo, hi), amplitude_range=(0.1, 0.2), offset_range=(-0.1, 0.1))
            m(it, g, "set_modules", rg.system)
            st = arr([0.0] * 5)
            o = it.iterate(it.iterate(m(it, g, "reset", st))[1])[0]
            args = []
            for k in range(2 * length):
                a = [x.args[1] for x in tm.subterms(o) if isinstance(x, tm.T) and x.op == "fn" and x.args[0] == f]
                ck.require("consumed-once", "%s value %d" % (name, k), len(a) == 1, "%d waveform terms" % len(a))
                args.append(a[0])
                m(it, g, "get_reference", st)
                o = it.iterate(m(it, g, "get_reference_observation", st))[0]
            d = [tm.add(b, tm.mul(-1, a)) for a, b in zip(args, args[1:])]
            for j in (0, length):
                ck.eq("consumed-once", "%s phase steps of sub episode %d" % (name, j // length), d[j + 1 : j + length - 1], [d[j]] * (length - 2), it=it)
                ck.within("consumed-once", "%s frequency of sub episode %d" % (name, j // length), tm.div(d[j], tm.mul(2 * np.pi, rg.tau)), lo, hi, "frequencies")
