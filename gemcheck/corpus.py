"""A labelled corpus of complete environments built from the library's own classes, for whole-environment rules.

Every entry is a builder `build(it) -> environment`; the entries cover all default environment classes and, on top of them,
every mechanical load, supply, solver, initialiser, reference generator, wrapper and converter option that keeps state or draws
random numbers.  Constraints are left out (`constraints=()`) so that a run is not cut short by a symbolic termination."""
import numpy as np

from .checks.E03 import env_classes
from .interp import arr
from .rig import MOTORS, S, box, m
from .values import *

PKG = "gym_electric_motor"


class World:
    """One abstract process: interpreter plus shortcuts to classes of the library."""

    def __init__(self, ck):
        self.ck = ck
        self.it = ck.interp(PKG, PKG + ".physical_system_wrappers", PKG + ".reference_generators", PKG + ".physical_systems", PKG + ".callbacks")
        self.envs = {c.name: c for c in env_classes(self.it)}

    def new(self, cls, *a, **k):
        return self.it.call(self.ck.cls(self.it, cls), list(a), k)

    def env(self, name, **k):
        k.setdefault("constraints", ())
        return self.it.call(self.envs[name], [], k)


BENCH = '''
import numpy as np
from gym_electric_motor.random_component import RandomComponent

class Bench:
    """A single supply behind the interface of an environment."""
    def __init__(self, supply, space):
        self._supply = supply
        self.action_space = space
        self._t = 0.0

    def reset(self, seed=None):
        if seed is not None and isinstance(self._supply, RandomComponent):
            self._supply.seed(np.random.SeedSequence(seed).spawn(1)[0])
        self._t = 0.0
        return (np.array(self._supply.reset()), np.array([0.0])), {}

    def step(self, action):
        self._t = self._t + 1e-3
        return (np.array(self._supply.get_voltage(self._t, action[0])), np.array([0.0])), 0.0, False, False, {}
'''


def bench(w, supply):
    if "gemspec.bench" not in w.it.modules:
        w.bench = w.it.load_text("gemspec.bench", BENCH)
    return w.it.call(w.bench.ns["Bench"], [supply, box(w.it, [-1.0], [1.0])], {})


class Entry:
    def __init__(self, label, make, tags=()):
        self.label = label
        self.make = make
        self.tags = set(tags)


DC = "DcPermanentlyExcitedMotor"
SHORT = {
    "permex": DC, "extex": "DcExternallyExcitedMotor", "series": "DcSeriesMotor", "shunt": "DcShuntMotor",
    "pmsm": "PermanentMagnetSynchronousMotor", "synrm": "SynchronousReluctanceMotor", "eesm": "ExternallyExcitedSynchronousMotor",
    "scim": "SquirrelCageInductionMotor", "dfim": "DoublyFedInductionMotor",
}


def cls(action, task, motor):
    return "%s%sControl%sEnv" % (action, task, SHORT[motor])


def rnd(states, how="uniform", interval=None, params=(None, None)):
    return dict(states=dict(states), interval=interval, random_init=how, random_params=params)


MOTOR_STATES = {
    "permex": ["i"], "extex": ["i_a", "i_e"], "series": ["i"], "shunt": ["i_a", "i_e"],
    "pmsm": ["i_sq", "i_sd", "epsilon"], "synrm": ["i_sq", "i_sd", "epsilon"], "eesm": ["i_sq", "i_sd", "i_e", "epsilon"],
    "scim": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"], "dfim": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"],
}


def subep(w, kind, state, n=2, **k):
    return w.new(kind, reference_state=state, episode_lengths=n, **k)


def entries(w, defaults=True):
    out = []

    def add(label, make, *tags):
        out.append(Entry(label, make, tags))

    if defaults:
        for n in w.envs:
            add("default " + n, lambda w, n=n: w.env(n), "default")

    P = cls("Cont", "Speed", "permex")
    # loads
    loads = [
        ("polynomial load, uniform speed", lambda w: w.new("PolynomialStaticLoad", load_initializer=rnd({"omega": 0.0}))),
        ("polynomial load, gaussian speed", lambda w: w.new("PolynomialStaticLoad", load_initializer=rnd({"omega": 0.0}, "gaussian", None, (10.0, 3.0)))),
        ("constant speed load", lambda w: w.new("ConstantSpeedLoad", omega_fixed=40.0)),
        ("constant speed load, random", lambda w: w.new("ConstantSpeedLoad", load_initializer=rnd({"omega": 0.0}, "uniform", [[20.0, 80.0]]))),
        ("external speed load", lambda w: w.new("ExternalSpeedLoad", Native("profile", lambda it, a, k: it.call(Ext("numpy.sin"), [k.get("t", a[0] if a else 0.0)], {})))),
        ("Ornstein-Uhlenbeck load", lambda w: w.new("OrnsteinUhlenbeckLoad")),
    ]
    for lab, mk in loads:
        add(lab, lambda w, mk=mk: w.env(P, load=mk(w)), "load")
    add("polynomial load in SCIM", lambda w: w.env(cls("Finite", "Speed", "scim"), load=w.new("PolynomialStaticLoad", load_initializer=rnd({"omega": 0.0}))), "load")
    add("Ornstein-Uhlenbeck load in PMSM", lambda w: w.env(cls("Cont", "Current", "pmsm"), load=w.new("OrnsteinUhlenbeckLoad")), "load")
    # the explicit solver evaluates the load equation (and its noise) in every step
    for mot in ("permex", "pmsm"):
        add("Ornstein-Uhlenbeck load with Euler solver in %s" % mot, lambda w, mot=mot: w.env(
            cls("Cont", "Current", mot), load=w.new("OrnsteinUhlenbeckLoad"), ode_solver=w.new("EulerSolver", nsteps=2)), "load")
    # supplies
    for lab, mk in (
        ("RC supply", lambda w: w.new("RCVoltageSupply", 60.0)),
        ("AC supply, random phase", lambda w: w.new("AC1PhaseSupply", 60.0)),
        ("AC supply, fixed phase", lambda w: w.new("AC1PhaseSupply", 60.0, supply_parameter={"frequency": 50, "phase": 1.0, "fixed_phase": True})),
    ):
        add(lab, lambda w, mk=mk: w.env(P, supply=mk(w)), "supply")
    for lab, mk in (
        ("three-phase supply", lambda w: w.new("AC3PhaseSupply", 400.0)),
        ("three-phase supply, own frequency", lambda w: w.new("AC3PhaseSupply", 400.0, supply_parameter={"frequency": 60})),
        ("three-phase supply, fixed phase", lambda w: w.new("AC3PhaseSupply", 400.0, supply_parameter={"frequency": 60, "phase": 0.5})),
        ("single-phase supply, own frequency", lambda w: w.new("AC1PhaseSupply", 400.0, supply_parameter={"frequency": 60})),
        ("RC supply alone", lambda w: w.new("RCVoltageSupply", 400.0, supply_parameter={"R": 2.0, "C": 1e-3})),
    ):
        add(lab, lambda w, mk=mk: bench(w, mk(w)), "supply", "bench")
    add("RC supply in series drive", lambda w: w.env(cls("Finite", "Current", "series"), supply=w.new("RCVoltageSupply", 420.0)), "supply")
    # initial values of the motors
    for mot, names in MOTOR_STATES.items():
        for how, par in (("uniform", (None, None)), ("gaussian", (None, None))):
            add("%s %s initial values" % (mot, how), lambda w, mot=mot, names=names, how=how, par=par: w.env(
                cls("Cont", "Torque", mot), motor=dict(motor_initializer=rnd({x: 0.0 for x in names}, how, None, par))), "initial")
    # solvers
    for lab, mk in (
        ("Euler solver", lambda w: w.new("EulerSolver", nsteps=2)),
        ("scipy ode solver", lambda w: w.new("ScipyOdeSolver")),
        ("scipy odeint solver", lambda w: w.new("ScipyOdeIntSolver")),
        ("scipy ivp solver", lambda w: w.new("ScipySolveIvpSolver")),
    ):
        add(lab, lambda w, mk=mk: w.env(P, ode_solver=mk(w)), "solver")
        add(lab + " in PMSM", lambda w, mk=mk: w.env(cls("Finite", "Torque", "pmsm"), ode_solver=mk(w)), "solver")
    # converters with interlocking times
    for act in ("Cont", "Finite"):
        for q in ("OneQuadrant", "TwoQuadrant", "FourQuadrant"):
            add("%s%s converter with interlocking" % (act, q), lambda w, act=act, q=q: w.env(
                cls(act, "Current", "permex"), converter=w.new("%s%sConverter" % (act, q), interlocking_time=1e-6), tau=1e-4), "converter")
        add("%sB6 converter with interlocking" % act, lambda w, act=act: w.env(
            cls(act, "Current", "pmsm"), converter=w.new("%sB6BridgeConverter" % act, interlocking_time=1e-6), tau=1e-4), "converter")
        add("%s multi converter with interlocking" % act, lambda w, act=act: w.env(cls(act, "Current", "extex"), converter=w.new(
            "%sMultiConverter" % act, [w.new("%sTwoQuadrantConverter" % act), w.new("%sFourQuadrantConverter" % act)], interlocking_time=1e-6), tau=1e-4), "converter")
        add("%s DFIM converters" % act, lambda w, act=act: w.env(cls(act, "Current", "dfim"), converter=w.new(
            "%sMultiConverter" % act, [w.new("%sB6BridgeConverter" % act), w.new("%sB6BridgeConverter" % act)], interlocking_time=1e-6), tau=1e-4), "converter")
    # reference generators
    gens = [
        ("const", lambda w, s: w.new("ConstReferenceGenerator", reference_state=s, reference_value=0.4)),
        ("sinusoidal", lambda w, s: subep(w, "SinusoidalReferenceGenerator", s)),
        ("step", lambda w, s: subep(w, "StepReferenceGenerator", s)),
        ("triangular", lambda w, s: subep(w, "TriangularReferenceGenerator", s)),
        ("sawtooth", lambda w, s: subep(w, "SawtoothReferenceGenerator", s)),
        ("wiener", lambda w, s: subep(w, "WienerProcessReferenceGenerator", s)),
        ("wiener with initial range", lambda w, s: subep(w, "WienerProcessReferenceGenerator", s, initial_range=(0.1, 0.3))),
        ("laplace", lambda w, s: subep(w, "LaplaceProcessReferenceGenerator", s)),
    ]
    for lab, mk in gens:
        add(lab + " reference", lambda w, mk=mk: w.env(P, reference_generator=mk(w, "omega")), "reference")
    add("zero reference", lambda w: w.env(cls("Cont", "Current", "scim"), reference_generator=w.new("ZeroReferenceGenerator")), "reference")
    add("varying episode lengths", lambda w: w.env(P, reference_generator=w.new("SinusoidalReferenceGenerator", reference_state="omega", episode_lengths=(1, 3))), "reference")
    mult = lambda w, a="i_sd", b="i_sq": w.new("MultipleReferenceGenerator", [gens[5][1](w, a), gens[1][1](w, b)])
    add("multiple references", lambda w: w.env(cls("Cont", "Current", "pmsm"), reference_generator=mult(w)), "reference")
    add("multiple references, three", lambda w: w.env(cls("Cont", "Current", "eesm"), reference_generator=w.new(
        "MultipleReferenceGenerator", [gens[6][1](w, "i_sd"), gens[0][1](w, "i_e"), gens[2][1](w, "i_sq")])), "reference")

    def switched(w, s="omega", subs=None, n=(2, 3)):
        return w.new("SwitchedReferenceGenerator", subs or [gens[2][1](w, s), gens[6][1](w, s)], super_episode_length=n)

    add("switched references", lambda w: w.env(P, reference_generator=switched(w)), "reference", "switched")
    add("switched references, p", lambda w: w.env(P, reference_generator=w.new(
        "SwitchedReferenceGenerator", [gens[0][1](w, "omega"), gens[1][1](w, "omega")], p=[0.2, 0.8], super_episode_length=(3, 4))), "reference", "switched")
    add("multiple of switched references", lambda w: w.env(cls("Cont", "Current", "pmsm"), reference_generator=w.new(
        "MultipleReferenceGenerator", [switched(w, "i_sd"), gens[1][1](w, "i_sq")])), "reference", "switched")
    add("switched of multiple references", lambda w: w.env(cls("Cont", "Current", "pmsm"), reference_generator=switched(
        w, subs=[mult(w), mult(w)], n=(2, 3))), "reference", "switched")
    add("switched of switched references", lambda w: w.env(P, reference_generator=switched(w, subs=[gens[2][1](w, "omega"), switched(w)], n=(3, 4))), "reference", "switched")
    # wrappers
    noise = lambda w, **k: w.new("StateNoiseProcessor", states="all", **k)
    ctl = lambda t, mot, wr, act="Cont", **k: (lambda w: w.env(cls(act, t, mot), physical_system_wrappers=[f(w) for f in wr], **{n: v(w) for n, v in k.items()}))
    N = lambda w, name, *a, **k: w.new(name, *a, **k)
    wraps = [
        ("noise", ctl("Speed", "permex", [noise])),
        ("two noises", ctl("Current", "pmsm", [noise, lambda w: noise(w, random_dist="uniform", random_kwargs=dict(low=-0.1, high=0.1))])),
        ("noise on one state", ctl("Speed", "permex", [lambda w: w.new("StateNoiseProcessor", states=["omega"], random_dist="normal", random_kwargs=dict(loc=0.0, scale=0.01))])),
        ("dead time", ctl("Speed", "permex", [lambda w: N(w, "DeadTimeProcessor", 2)])),
        ("dead time, finite", ctl("Current", "pmsm", [lambda w: N(w, "DeadTimeProcessor", 1)], "Finite")),
        ("dead time, multi-discrete", ctl("Current", "extex", [lambda w: N(w, "DeadTimeProcessor", 1)], "Finite")),
        ("dead time with own reset action", ctl("Speed", "permex", [lambda w: N(w, "DeadTimeProcessor", 1, Native("reset action", lambda it, a, k: [arr([0.25])]))])),
        ("cos/sin", ctl("Current", "pmsm", [lambda w: N(w, "CosSinProcessor", angle="epsilon")])),
        ("flux observer", ctl("Current", "scim", [lambda w: N(w, "FluxObserver")])),
        ("flux observer and noise", ctl("Current", "scim", [lambda w: N(w, "FluxObserver"), noise])),
        ("current sum", ctl("Current", "extex", [lambda w: N(w, "CurrentSumProcessor", ("i_a", "i_e"))])),
        ("dq actions", ctl("Current", "pmsm", [lambda w: w.it.call(w.it.getattr(w.ck.cls(w.it, "DqToAbcActionProcessor"), "make"), ["PMSM"], {})])),
        ("dq actions with dead time", ctl("Current", "pmsm", [lambda w: N(w, "DeadTimeProcessor", 1), lambda w: w.it.call(w.it.getattr(w.ck.cls(w.it, "DqToAbcActionProcessor"), "make"), ["PMSM"], {})])),
        ("flux observer with dq actions", ctl("Current", "scim", [lambda w: N(w, "FluxObserver"), lambda w: w.it.call(w.it.getattr(w.ck.cls(w.it, "DqToAbcActionProcessor"), "make"), ["SCIM"], {})])),
    ]
    for lab, mk in wraps:
        add(lab, mk, "wrapper")
    add("wrapper with OU load, RC supply and switched references", lambda w: w.env(P, load=w.new("OrnsteinUhlenbeckLoad"), supply=w.new("AC1PhaseSupply", 60.0),
        physical_system_wrappers=[noise(w), w.new("DeadTimeProcessor", 1)], reference_generator=switched(w)), "wrapper", "switched")
    add("bias reward and callback", lambda w: w.env(P, reward_function=w.new("WeightedSumOfErrors", reward_weights=dict(omega=0.7, i=0.3), bias="positive"),
        reference_generator=subep(w, "SinusoidalReferenceGenerator", "omega")), "reward")
    return out


def action(it, e, tag="a", k=0, variant=0):
    """An arbitrary action of the environment's action space: symbols for boxes, varying switch states for discrete spaces."""
    sp = it.res(it.getattr(e, "action_space"))
    last = sp.extname.rsplit(".", 1)[-1]
    if last == "Discrete":
        return (1 + k + 2 * variant) % int(sp.attrs["n"])
    if last == "MultiDiscrete":
        return arr([(1 + k + 2 * variant + j) % int(n) for j, n in enumerate(np.asarray(sp.attrs["nvec"]).ravel())])
    lo, hi = np.asarray(sp.attrs["low"]).ravel(), np.asarray(sp.attrs["high"]).ravel()
    return arr([S("%s%d_%d [%s,%s]" % (tag, k, i, float(lo[i]), float(hi[i])), ("range", float(lo[i]), float(hi[i]))) for i in range(len(lo))])


class Episode:
    def __init__(self):
        self.out = []  # (what, values): everything reset and step return
        self.draws = []  # (key, count, method)
        self.events = []


def play(w, e, n, seed=None, tag="a", variant=0, first=0):
    """One episode: reset (optionally seeded) and n steps with arbitrary actions; returns outputs and effects."""
    it = w.it
    ep = Episode()
    n0 = len(it.events)
    r = it.iterate(m(it, e, "reset", **({} if seed is None else {"seed": seed})))
    ob = it.iterate(r[0])
    ep.out.append(("reset state", snapv(it, ob[0])))
    ep.out.append(("reset reference", snapv(it, ob[1])))
    for k in range(n):
        r = it.iterate(m(it, e, "step", action(it, e, tag, first + k, variant)))
        ob = it.iterate(r[0])
        ep.out.append(("step %d state" % (k + 1), snapv(it, ob[0])))
        ep.out.append(("step %d reference" % (k + 1), snapv(it, ob[1])))
        ep.out.append(("step %d reward" % (k + 1), snapv(it, r[1])))
        ep.out.append(("step %d terminated" % (k + 1), snapv(it, r[2])))
    ep.events = it.events[n0:]
    for x in ep.events:
        if x.kind in ("draw", "scipy_draw") and x.result is not None:
            ep.draws.append((x.result[0], x.result[1], x.name))
    return ep


def snapv(it, v):
    from .check import norm

    return norm(v, it)


def flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from flat(x)
    elif isinstance(v, np.ndarray):
        for x in v.reshape(-1):
            yield from flat(x)
    else:
        yield v


_NODES = (Obj, list, tuple, dict, set, np.ndarray, Bound, Phi)


def reachable(it, root):
    """All (path, object) pairs of the object graph, breadth first, each object once."""
    seen = {}
    todo = [("env", root)]
    out = []
    pos = 0
    while pos < len(todo):
        path, v = todo[pos]
        pos += 1
        if isinstance(v, Phi):
            if id(v) not in seen:
                seen[id(v)] = v
                todo += [(path, v.a), (path, v.b)]
            continue
        if not isinstance(v, _NODES) or id(v) in seen:
            continue
        seen[id(v)] = v
        if isinstance(v, Obj):
            out.append((path, v))
            for k, x in v.attrs.items():
                if isinstance(x, _NODES):
                    todo.append(("%s.%s" % (path, k), x))
        elif isinstance(v, dict):
            for k, x in v.items():
                if isinstance(x, _NODES):
                    todo.append(("%s[%r]" % (path, k) if isinstance(k, (str, int)) else path + "[..]", x))
        elif isinstance(v, np.ndarray):
            if v.dtype == object:
                for x in v.reshape(-1):
                    if isinstance(x, _NODES):
                        todo.append((path, x))
        elif isinstance(v, Bound):
            todo.append((path + ".self", v.self_))
        else:
            for i, x in enumerate(v):
                if isinstance(x, _NODES):
                    todo.append(("%s[%d]" % (path, i), x))
    return out


def phi_alternatives(v):
    if isinstance(v, Phi):
        return phi_alternatives(v.a) + phi_alternatives(v.b)
    return [v]
