"""Isolation: no shared mutable state between instances, and the caller's objects are left alone."""
from .. import terms as tm
from ..corpus import *
from ..interp import arr, snap
from ..rig import S, m, MOTORS, motor_params
from ..values import *
from .S04 import compare

CONTAINERS = (list, dict, set, np.ndarray)


def mark(it, v, label, depth=5):
    """The containers below v (not the components in them) belong to the caller."""
    if isinstance(v, CONTAINERS):
        if id(v) not in it.origin:
            it.origin[id(v)] = label
            it.keep.append(v)
        if depth:
            for x in v.values() if isinstance(v, dict) else (v if not isinstance(v, np.ndarray) else ()):
                mark(it, x, label, depth - 1)
    elif isinstance(v, tuple) and depth:
        for x in v:
            mark(it, x, label, depth - 1)


# These only hold their parts until an environment is built.
COMPOSED = ("MultipleReferenceGenerator", "SwitchedReferenceGenerator", "FiniteMultiConverter", "ContMultiConverter")


class Owner(World):
    """A world in which everything passed to a constructor is marked as the caller's."""

    def _mark(self, cls, a, k):
        for i, v in enumerate(a):
            mark(self.it, v, "argument %d of %s" % (i + 1, cls))
        for n, v in k.items():
            mark(self.it, v, "argument %s of %s" % (n, cls))

    def new(self, cls, *a, **k):
        self._mark(cls, a, k)
        if cls not in COMPOSED:
            return super().new(cls, *a, **k)
        parts = [x for v in list(a) + list(k.values()) for x in (v if isinstance(v, (list, tuple)) else [v]) if isinstance(x, Obj)]
        before = [picture(self.it, x) for x in parts]
        o = super().new(cls, *a, **k)
        for i, (x, b) in enumerate(zip(parts, before)):
            d = diff(b[0], picture(self.it, x)[0])
            con = "%s built from part %d of %s" % (cls, i + 1, " + ".join(y.cls.name for y in parts))
            self.ck.require("parts", con, d is None, "the part passed in is changed: %s" % (d or "").replace("env", "part", 1))
        return o

    def env(self, name, **k):
        self._mark(name, (), k)
        return super().env(name, **k)


PAR = {"extex": "DcExternallyExcitedMotor", "permex": DC}


def param_entries(w):
    """Environments whose components are configured by the caller's own dictionaries and lists, on all levels."""
    out = []
    for mot, cname in SHORT.items():
        for act in ("Cont", "Finite"):
            def make(w, mot=mot, cname=cname, act=act, inst=False):
                it = w.it
                c = w.ck.cls(it, cname)
                getd = lambda n: dict(it.iterate_dict(it.getattr(c, n)) if hasattr(it, "iterate_dict") else it.res(it.getattr(c, n)))
                par = getd("_default_motor_parameter")
                lim, nom = getd("_default_limits"), getd("_default_nominal_values")
                half = lambda d: {k: v for i, (k, v) in enumerate(sorted(d.items())) if i % 2 == 0}
                ini = dict(states={x: 0.0 for x in MOTOR_STATES[mot]}, interval=None, random_init="uniform", random_params=(None, None))
                k = dict(
                    supply=dict(u_nominal=100.0),
                    motor=dict(motor_parameter=par, limit_values=half(lim), nominal_values=half(nom), motor_initializer=ini),
                    load=dict(load_parameter=dict(a=0.01, b=0.002, c=0.0, j_load=1e-4), load_initializer=dict(states={"omega": 0.0}, interval=None, random_init="uniform", random_params=(None, None))),
                    ode_solver=dict(),
                    reward_function=dict(reward_weights=dict(omega=1.0)),
                    reference_generator=dict(sigma_range=[1e-3, 1e-2], episode_lengths=[2, 3]),
                    converter=dict(),
                    state_filter=["omega", "torque"],
                    constraints=[],
                    callbacks=[],
                    visualization=[],
                    physical_system_wrappers=[w.new("StateNoiseProcessor", states=["omega"], random_kwargs=dict(loc=0.0, scale=0.1))],
                    tau=1e-4,
                )
                return w.env(cls(act, "Speed", mot), **k)
            out.append(Entry("%s %s configured by dictionaries" % (act, mot), make))

    def instances(w):
        mp = motor_params(DC)
        return w.env(
            cls("Cont", "Speed", "permex"),
            motor=w.new(DC, motor_parameter=dict(mp), limit_values=dict(omega=200.0), nominal_values=dict(omega=100.0), motor_initializer=dict(states={"i": 0.0}, interval=[[0.0, 1.0]], random_init="uniform", random_params=[None, None])),
            load=w.new("PolynomialStaticLoad", load_parameter=dict(a=0.1, b=0.1, c=0.1, j_load=0.1), load_initializer=dict(states={"omega": 0.0}, interval=[[0.0, 30.0]], random_init="uniform", random_params=(None, None))),
            supply=w.new("AC1PhaseSupply", 60.0, supply_parameter={"frequency": 50}),
            reference_generator=w.new("SwitchedReferenceGenerator", [subep(w, "StepReferenceGenerator", "omega", amplitude_range=[0.0, 0.5], frequency_range=[1, 10], offset_range=[0.0, 0.1]), subep(w, "WienerProcessReferenceGenerator", "omega", initial_range=[0.0, 0.1], sigma_range=[1e-3, 1e-2])], p=[0.25, 0.75], super_episode_length=[2, 3]),
            reward_function=w.new("WeightedSumOfErrors", reward_weights=dict(omega=0.5, i=0.5), reward_power=dict(omega=2.0, i=1.0), normed_reward_weights=True),
            physical_system_wrappers=[w.new("DeadTimeProcessor", 2), w.new("StateNoiseProcessor", states=["omega", "i"], random_kwargs=dict(scale=0.1))],
            callbacks=[],
        )

    out.append(Entry("all components from the caller's containers", instances))
    out.append(Entry("weights and powers as arrays", lambda w: w.env(cls("Cont", "Speed", "permex"), reward_function=w.new(
        "WeightedSumOfErrors", reward_weights=arr([1.0, 0.5, 0.25, 0.25, 0.5]), reward_power=arr([1.0, 2.0, 1.0, 1.0, 1.0]), normed_reward_weights=True), reference_generator=subep(w, "SinusoidalReferenceGenerator", "omega"))))
    out.append(Entry("weights and powers as lists", lambda w: w.env(cls("Cont", "Speed", "permex"), reward_function=w.new(
        "WeightedSumOfErrors", reward_weights=[1.0, 0.5, 0.25, 0.25, 0.5], reward_power=[1.0, 2.0, 1.0, 1.0, 1.0]), reference_generator=subep(w, "SinusoidalReferenceGenerator", "omega"))))
    out.append(Entry("initial flux limits", lambda w: w.env(cls("Cont", "Torque", "scim"), motor=dict(
        motor_initializer=dict(states={x: 0.0 for x in MOTOR_STATES["scim"]}, interval=None, random_init="uniform", random_params=(None, None)), initial_limits=dict(psi_ralpha=0.5, psi_rbeta=0.5)))))
    out.append(Entry("constraints as list", lambda w: w.env(cls("Cont", "Current", "pmsm"), constraints=["i_a", w.new("SquaredConstraint", ["i_sd", "i_sq"])])))
    out.append(Entry("constraint monitor", lambda w: w.env(cls("Cont", "Current", "pmsm"), constraints=w.new("ConstraintMonitor", ["i_a", "omega"], [w.new("LimitConstraint", ["i_b", "i_c"])]))))
    out.append(Entry("external speed with arguments", lambda w: w.env(cls("Cont", "Speed", "permex"), load=w.new("ExternalSpeedLoad", Native(
        "profile", lambda it, a, k: tm.mul(it.num(k["amp"]), it.num(k["t"]))), speed_profile_kwargs=dict(amp=3.0)))))
    return out


def shared_label(ev):
    return str(ev.name)


class Poison:
    """Overwrites shared scratch arrays with symbols so that any later use of stale contents shows up in a result."""

    def __init__(self, it):
        self.it = it
        self.n = 0
        self.syms = set()

    def spill(self, arrays):
        for a in arrays:
            f = a.reshape(-1)
            for i in range(f.size):
                self.n += 1
                s = S("stale#%d" % (self.n % 400))
                self.syms.add(s)
                a.reshape(-1)[i] = s


def leaf(v, keep):
    if isinstance(v, (np.ndarray, list, dict, set, tuple, Obj, Bound, Phi, U, Native)):
        keep.append(v)
        return ("ref", type(v).__name__, id(v))
    if isinstance(v, tm.T):
        keep.append(v)
        return ("t", id(v))
    return ("c", type(v).__name__, repr(v) if not isinstance(v, float) else v)


def picture(it, e):
    """Contents of the object graph of an environment: every attribute, element and entry by identity or value."""
    keep, out = [], {}
    for path, o in reachable(it, e):
        out[path] = {k: content(v, keep) for k, v in o.attrs.items()}
    return out, keep


def content(v, keep, depth=4):
    if isinstance(v, np.ndarray) and depth:
        keep.append(v)
        return ("arr", v.shape, tuple(leaf(x, keep) for x in v.reshape(-1)))
    if isinstance(v, (list, tuple)) and depth:
        keep.append(v)
        return (type(v).__name__, tuple(content(x, keep, depth - 1) for x in v))
    if isinstance(v, dict) and depth:
        keep.append(v)
        return ("dict", tuple((repr(k), content(x, keep, depth - 1)) for k, x in v.items()))
    return leaf(v, keep)


def diff(a, b):
    for p in a:
        if p not in b:
            return "%s disappeared" % p
        for k in a[p]:
            if a[p][k] != b[p].get(k):
                return "%s.%s changed" % (p.replace("env._", "env."), k)
        for k in b[p]:
            if k not in a[p]:
                return "%s.%s appeared" % (p.replace("env._", "env."), k)
    return None


def run(ck):
    ck.rule("arguments", "no container passed to a constructor is written while building, seeding, resetting, stepping and closing")
    ck.rule("parts", "combining components (generators, converters) leaves every attribute of the parts unchanged")
    ck.rule("actions", "the action array given to step is not written")
    ck.rule("class-state", "no class attribute, default argument or module value is written (scratch arrays may be, if no result ever depends on their earlier contents)")
    ck.rule("returned", "states and references returned earlier are not written later")
    ck.rule("instances", "building and running another environment leaves every attribute of an existing one unchanged")
    ck.rule("interleaved", "outputs of an environment are the same when another one is built and stepped in between")
    seed = S("seed", "nat")
    w = Owner(ck)
    it = w.it
    base = entries(w) + param_entries(w)
    poison = Poison(it)
    scratch = {}
    n = 3
    for en in base:
        with ck.guard("arguments", en.label):
            n0 = len(it.events)
            e = en.make(w)
            kept = []
            for rd in range(2):
                r = it.iterate(m(it, e, "reset", **({"seed": seed} if rd == 0 else {})))
                keep_outputs(it, kept, it.iterate(r[0]))
                for k in range(n):
                    a = action(it, e, "a", k, rd)
                    if isinstance(a, np.ndarray):
                        mark(it, a, "the action given to step")
                    for s in [x for x in it.events[n0:] if x.kind == "mutate_shared"]:
                        if isinstance(s.obj, np.ndarray) and not str(s.name).startswith(("argument", "the action")):
                            scratch[id(s.obj)] = s.obj
                    poison.spill(scratch.values())
                    r = it.iterate(m(it, e, "step", a))
                    keep_outputs(it, kept, it.iterate(r[0]))
                    for what, v in (("state", it.iterate(r[0])[0]), ("reference", it.iterate(r[0])[1]), ("reward", r[1]), ("terminated", r[2])):
                        st = [t for x in flat(snapv(it, v)) if isinstance(x, tm.T) for t in tm.symbols(x) if t in poison.syms]
                        if st:
                            ck.violation("class-state", "%s %s" % (en.label, what), "depends on earlier contents of a shared scratch array")
                        else:
                            ck.ok("class-state", "%s %s" % (en.label, what))
            if it.res(e).cls.lookup("close")[0] is not None:
                m(it, e, "close")
            bad = {}
            for x in it.events[n0:]:
                lab = str(x.name)
                where = x.loc.split(" ", 1)[-1]
                if x.kind == "mutate_shared":
                    if lab.startswith("argument"):
                        bad[("arguments", "%s written in %s" % (lab, where))] = "the caller's object is changed (%s)" % en.label
                    elif lab.startswith("the action"):
                        bad[("actions", "%s written in %s" % (en.label, where))] = lab
                    elif not isinstance(x.obj, np.ndarray):
                        bad[("class-state", "%s written in %s" % (lab, where))] = "shared by all instances (%s)" % en.label
                elif x.kind in ("class_write", "module_write"):
                    bad[("class-state", "%s written in %s" % (lab, where))] = "%s (%s)" % (x.kind, en.label)
            for (r_, c), d in bad.items():
                ck.violation(r_, c, d)
            for r_ in ("arguments", "actions"):
                if not any(k[0] == r_ for k in bad):
                    ck.ok(r_, en.label)
            ch = [what for what, obj, old in kept if not unchanged(obj, old)]
            ck.require("returned", en.label, not ch, "%s changed after it was returned" % ch[:3])
    # with their own default constraints (a run of one step only, as an episode may end there)
    for name in w.envs:
        for lab, extra in (("default constraints", {}), ("default constraints and wrapper", dict(wrap=True))):
            en_label = "%s with %s" % (name, lab)
            with ck.guard("class-state", en_label):
                k = dict(visualization=[])
                if extra:
                    k["physical_system_wrappers"] = [w.new("StateNoiseProcessor", states=["omega"])]
                n0 = len(it.events)
                e = it.call(w.envs[name], [], k)
                m(it, e, "reset", seed=seed)
                m(it, e, "step", action(it, e))
                bad = set()
                for x in it.events[n0:]:
                    if x.kind in ("class_write", "module_write") or (x.kind == "mutate_shared" and not isinstance(x.obj, np.ndarray)):
                        bad.add("%s written in %s" % (x.name, x.loc.split(" ", 1)[-1]))
                for b in sorted(bad):
                    ck.violation("class-state", b, "shared by all instances (%s)" % en_label)
                if not bad:
                    ck.ok("class-state", en_label)
    if scratch:
        ck.notes.append("%d shared scratch arrays seen; their contents were replaced by symbols before every step" % len(scratch))
    # non-interference between instances
    pairs = [(base[i], base[(i + 1) % len(base)]) for i in range(len(base))]
    if ck.tier == "thorough":
        pairs += [(base[i], base[(i + 7) % len(base)]) for i in range(len(base))] + [(b, b) for b in base]
    else:
        pairs += [(b, b) for b in base if "default" not in b.tags]
    for a, b in pairs:
        with ck.guard("instances", "%s / %s" % (a.label, b.label)):
            w1 = World1(ck)
            alone = a.make(w1)
            ref = [play(w1, alone, 2, seed), play(w1, alone, 2)]
            w2 = World1(ck)
            e1 = a.make(w2)
            p1 = play(w2, e1, 2, seed)
            before, k1 = picture(w2.it, e1)
            e2 = b.make(w2)
            play(w2, e2, 2, S("other seed", "nat"), tag="b", variant=1)
            after, k2 = picture(w2.it, e1)
            d = diff(before, after)
            ck.require("instances", "%s / %s" % (a.label, b.label), d is None, "%s by another instance" % d)
            p2 = play(w2, e1, 2)
            for n_, (x, y) in enumerate(zip(ref, [p1, p2])):
                compare(ck, "interleaved", "%s / %s episode %d" % (a.label, b.label, n_ + 1), x, y)
    ck.min_decided = 2000


_worlds = {}


def World1(ck):
    return World(ck)


def keep_outputs(it, kept, ob):
    for what, v in zip(("state", "reference"), ob):
        v = it.res(v)
        if isinstance(v, np.ndarray):
            kept.append(("%s %d" % (what, len(kept) // 2), v, v.copy()))


def unchanged(v, old):
    return v.shape == old.shape and all(x is y or (not isinstance(x, tm.T) and not isinstance(y, tm.T) and x == y) for x, y in zip(v.reshape(-1), old.reshape(-1)))
