"""A recording innermost system for the physical system wrappers: it keeps and returns the same vector object."""
import numpy as np

from . import terms as tm
from .interp import arr, snap
from .values import *
from .rig import box, S, m, make_motor, motor_params, PI

SRC = '''
from gym_electric_motor.core import PhysicalSystem
from gym_electric_motor.random_component import RandomComponent

class Inner(PhysicalSystem, RandomComponent):
    def __init__(self, names, low, high, limits, nominal, actions, motor):
        PhysicalSystem.__init__(self, actions, BOX(low, high), names, TAU)
        RandomComponent.__init__(self)
        self._state_positions = dict((n, i) for i, n in enumerate(names))
        self._lim = limits
        self._nom = nominal
        self._motor = motor
        self.service = "service of the inner system"
        self._kept = None

    @property
    def electrical_motor(self):
        return self._motor

    @property
    def limits(self):
        return self._lim

    @property
    def nominal_state(self):
        return self._nom

    def reset(self, initial_state=None):
        LOG("reset", initial_state)
        self._k = 0
        self._kept = STATE()
        return self._kept

    def simulate(self, action, *_, **__):
        LOG("simulate", action)
        self._k = self._k + 1
        self._kept = STATE()
        return self._kept

    def seed(self, seed=None):
        LOG("seed", seed)

    def close(self):
        LOG("close")
'''

NAMES = ["torque", "omega", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "i", "epsilon", "u_sup"]


class WrapRig:
    def __init__(self, ck, names=NAMES, actions="box3", motor="SquirrelCageInductionMotor"):
        self.ck = ck
        self.it = it = ck.interp("gym_electric_motor", "gym_electric_motor.physical_system_wrappers")
        self.log = []
        self.n = 0
        self.tau = S("tau", "small")
        self.names = list(names)
        nat = lambda name, fn: Native(name, lambda it, a, k: fn(*a, **k))
        self.mod = it.load_text(
            "gemspec.wrap", SRC,
            LOG=nat("LOG", lambda *a: self.log.append(tuple(snap(x) for x in a))),
            STATE=nat("STATE", self._state),
            BOX=nat("BOX", lambda lo, hi: box(it, lo, hi)),
            TAU=self.tau,
        )
        sp = lambda c, *a: it.ext.call(Ext("gymnasium.spaces." + c), list(a), {})
        if actions.startswith("box"):
            n = int(actions[3:])
            space = box(it, [-1.0] * n, [1.0] * n)
        elif actions == "discrete":
            space = sp("Discrete", 8)
        else:
            space = sp("MultiDiscrete", [4, 3, 3])
        # the angle's limit is pi, as in every machine of the library
        self.limits = {n: PI if n in ("epsilon", "psi_angle") else S("lim_" + n, "pos") for n in names}
        self.nominal = {n: PI if n in ("epsilon", "psi_angle") else S("nom_" + n, "pos") for n in names}
        self.low = {n: S("low_" + n, ("range", -2, -1)) for n in names}
        self.high = {n: S("high_" + n, ("range", 1, 2)) for n in names}
        self.par = motor_params(motor)
        self.motor = make_motor(it, motor, self.par)
        col = lambda d: arr([d[n] for n in names])
        self.space = space
        self.inner = it.call(self.mod.ns["Inner"], [list(names), col(self.low), col(self.high), col(self.limits), col(self.nominal), space, self.motor], {})
        self.state = None

    def _state(self):
        self.n += 1
        self.state = {n: S("%s@%d" % (n, self.n)) for n in self.names}
        return arr([self.state[n] for n in self.names])

    def wrap(self, cls, *args, inner=None, late=False, **kw):
        it = self.it
        c = self.ck.cls(it, cls)
        inner = self.inner if inner is None else inner
        if late:
            w = it.call(c, list(args), kw)
            m(it, w, "set_physical_system", inner)
            return w
        return it.call(c, list(args), dict(kw, physical_system=inner))

    def take(self):
        l = self.log
        self.log = []
        return l
