"""Interface summaries of an environment's modules: recording subclasses of the public base classes.

They are given to the analysed ElectricMotorEnvironment so that every call it makes into a module, and what it passes,
becomes visible as a symbolic term."""
import numpy as np

from . import terms as tm
from .interp import arr, snap
from .values import *
from .rig import box, S, m

SRC = '''
from gym_electric_motor.core import PhysicalSystem, ReferenceGenerator, RewardFunction, Callback, ElectricMotorVisualization
from gym_electric_motor.constraints import Constraint
from gym_electric_motor.random_component import RandomComponent
from gym_electric_motor.physical_system_wrappers.physical_system_wrapper import PhysicalSystemWrapper

class System(PhysicalSystem, RandomComponent):
    def __init__(self, tag, names, low, high, limits, nominal):
        PhysicalSystem.__init__(self, ACTIONS, BOX(low, high), names, TAU)
        RandomComponent.__init__(self)
        self.tag = tag
        self._lim = limits
        self._nom = nominal

    @property
    def limits(self):
        return self._lim

    @property
    def nominal_state(self):
        return self._nom

    def reset(self, initial_state=None):
        self._k = 0
        LOG("system.reset")
        return STATE("r")

    def simulate(self, action, *_, **__):
        LOG("system.simulate", action)
        self._k = self._k + 1
        return STATE("s")

    def seed(self, seed=None):
        LOG("seed", self.tag, seed)

    def close(self):
        LOG("system.close", self.tag)


class Generator(ReferenceGenerator, RandomComponent):
    def __init__(self, tag, names, space, **kw):
        ReferenceGenerator.__init__(self)
        RandomComponent.__init__(self)
        self.tag = tag
        self._reference_names = names
        self.reference_space = space

    def set_modules(self, physical_system):
        super().set_modules(physical_system)
        LOG("generator.set_modules", self.tag, physical_system)

    def get_reference(self, state, *_, **__):
        LOG("generator.get_reference", self.tag, state)
        return REF("ref")

    def get_reference_observation(self, state, *_, **__):
        LOG("generator.get_reference_observation", self.tag, state)
        return REF("obs")

    def reset(self, initial_state=None, initial_reference=None):
        LOG("generator.reset", self.tag, initial_state, initial_reference)
        return REF("ref"), REF("obs"), None

    def seed(self, seed=None):
        LOG("seed", self.tag, seed)

    def close(self):
        LOG("generator.close", self.tag)


class Reward(RewardFunction):
    def __init__(self, tag):
        RewardFunction.__init__(self)
        self.tag = tag
        self.reward_range = RANGE

    def set_modules(self, physical_system, reference_generator, constraint_monitor):
        LOG("reward.set_modules", self.tag, physical_system, reference_generator, constraint_monitor)

    def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
        LOG("reward.reward", self.tag, state, reference, k, action, violation_degree)
        return SCALAR("reward")

    def reset(self, initial_state=None, initial_reference=None):
        LOG("reward.reset", self.tag, initial_state, initial_reference)

    def close(self):
        LOG("reward.close", self.tag)


class Recorder:
    def set_env(self, env):
        super().set_env(env)
        LOG("cb.set_env", self.tag, env)

    def on_reset_begin(self):
        LOG("cb.on_reset_begin", self.tag)

    def on_reset_end(self, state, reference):
        LOG("cb.on_reset_end", self.tag, state, reference)

    def on_step_begin(self, k, action):
        LOG("cb.on_step_begin", self.tag, k, action)

    def on_step_end(self, k, state, reference, reward, terminated):
        LOG("cb.on_step_end", self.tag, k, state, reference, reward, terminated)

    def on_close(self):
        LOG("cb.on_close", self.tag)


class Cb(Recorder, Callback):
    def __init__(self, tag):
        Callback.__init__(self)
        self.tag = tag


class RandomCb(Recorder, Callback, RandomComponent):
    def __init__(self, tag):
        Callback.__init__(self)
        RandomComponent.__init__(self)
        self.tag = tag

    def seed(self, seed=None):
        LOG("seed", self.tag, seed)


class Visu(Recorder, ElectricMotorVisualization):
    def __init__(self, tag="visu class", **kw):
        ElectricMotorVisualization.__init__(self)
        self.tag = tag

    def render(self):
        LOG("visu.render", self.tag)


class ObjConstraint(Constraint):
    def __init__(self, tag):
        self.tag = tag

    def set_modules(self, ps):
        LOG("constraint.set_modules", self.tag, ps)

    def __call__(self, state):
        LOG("constraint.call", self.tag, state)
        return DEGREE(self.tag)


def function_constraint(tag):
    def constraint(state):
        LOG("constraint.call", tag, state)
        return DEGREE(tag)
    return constraint


class Wrapper(PhysicalSystemWrapper):
    """Shifts every state by one slot's worth of a constant, so wrapped and unwrapped vectors can be told apart."""
    def __init__(self, tag):
        super().__init__()
        self.tag = tag

    def set_physical_system(self, physical_system):
        LOG("wrapper.set_physical_system", self.tag, physical_system)
        return super().set_physical_system(physical_system)

    def reset(self, initial_state=None):
        LOG("wrapper.reset", self.tag)
        return WRAP(self._physical_system.reset(), self.tag)

    def simulate(self, action):
        LOG("wrapper.simulate", self.tag, action)
        return WRAP(self._physical_system.simulate(action), self.tag)
'''

NAMES = ["omega", "torque", "i", "u", "u_sup"]


class EnvRig:
    def __init__(self, ck, names=None, **kw):
        self.ck = ck
        self.it = it = ck.interp("gym_electric_motor", "gym_electric_motor.callbacks")
        self.log = []
        self.n = {}
        self.names = list(names or NAMES)
        self.degree = {}  # tag -> value or callable
        nat = lambda name, fn: Native(name, lambda it, a, k: fn(*a, **k))
        self.tau = S("tau", "small")
        self.mod = it.load_text(
            "gemspec.env",
            SRC,
            LOG=nat("LOG", self._log),
            STATE=nat("STATE", lambda kind: self._vec("x" + kind, len(self.names))),
            REF=nat("REF", lambda kind: self._vec(kind, len(self.names) if kind == "ref" else 1)),
            SCALAR=nat("SCALAR", lambda kind: self._vec(kind, 1)[0]),
            DEGREE=nat("DEGREE", self._degree),
            WRAP=nat("WRAP", lambda v, tag: arr([tm.add(x, S("shift " + tag)) for x in it.iterate(v)])),
            BOX=nat("BOX", lambda lo, hi: box(it, lo, hi)),
            TAU=self.tau,
            ACTIONS=box(it, [-1.0], [1.0]),
            RANGE=(-1.0, 0.0),
        )
        self.low = arr([S("low_" + n, ("range", -2, -1)) for n in self.names])
        self.high = arr([S("high_" + n, ("range", 1, 2)) for n in self.names])
        self.limits = arr([S("lim_" + n, "pos") for n in self.names])
        self.nominal = arr([S("nom_" + n, "pos") for n in self.names])
        self.renew()
        self.env_cls = ck.cls(it, "ElectricMotorEnvironment")

    def renew(self):
        """New module objects (for another environment in the same analysis)."""
        it = self.it
        self.log = []
        self.system = self.make("System", "system", list(self.names), self.low, self.high, self.limits, self.nominal)
        self.ref_space = box(it, [-0.5], [0.5])
        self.generator = self.make("Generator", "generator", ["omega"], self.ref_space)
        self.reward = self.make("Reward", "reward")

    def make(self, cls, *args, **kw):
        return self.it.call(self.mod.ns[cls], list(args), kw)

    def env(self, **kw):
        a = dict(physical_system=self.system, reference_generator=self.generator, reward_function=self.reward)
        a.update(kw)
        self.e = self.it.call(self.env_cls, [], a)
        return self.e

    # recording
    def _log(self, what, *args):
        self.log.append((what,) + tuple(snap(a) for a in args))

    def _count(self, kind):
        self.n[kind] = self.n.get(kind, 0) + 1
        return self.n[kind]

    def _vec(self, kind, n):
        c = self._count(kind)
        return arr([S("%s%d_%d" % (kind, c, j)) for j in range(n)])

    def _degree(self, tag):
        d = self.degree.get(tag)
        if d is None:
            return S("degree %s %d" % (tag, self._count("degree " + tag)), ("range", 0, 1))
        return d() if callable(d) else d

    def take(self):
        l = self.log
        self.log = []
        return l

    def step(self, action=None):
        a = S("action%d" % self._count("action")) if action is None else action
        return a, m(self.it, self.e, "step", a)

    def reset(self, **kw):
        return m(self.it, self.e, "reset", **kw)


def of(log, what, tag=None):
    return [e for e in log if e[0] == what and (tag is None or e[1] == tag)]
