"""Shared builders for the controller package: environments and controllers made for every advertised combination."""
from . import terms as tm
from .corpus import *
from .interp import arr
from .rig import S, m
from .values import *

MOTOR_IDS = {"series": "SeriesDc", "shunt": "ShuntDc", "permex": "PermExDc", "extex": "ExtExDc", "pmsm": "PMSM", "synrm": "SynRM", "scim": "SCIM", "eesm": "EESM"}
DC = ["series", "shunt", "permex", "extex"]
AC = ["pmsm", "synrm", "scim", "eesm"]
TASKS = {"Current": "CC", "Torque": "TC", "Speed": "SC"}
GRID = 8
UNIT = ("range", -1.0, 1.0)


def COARSE(v):
    return GRID + v % 2


def sub(a, b):
    return tm.add(a, tm.mul(-1, b))


def total(*xs):
    out = 0
    for x in xs:
        out = tm.add(out, x)
    return out


def sqrt(x):
    return tm.fn("sqrt", x)


class Combo:
    def __init__(self, act, task, motor):
        self.act, self.task, self.motor = act, task, motor
        self.eid = "%s-%s-%s-v0" % (act, TASKS[task], MOTOR_IDS[motor])
        self.label = self.eid[:-3]


def combos(acts=("Cont", "Finite"), tasks=tuple(TASKS), motors=tuple(MOTOR_IDS)):
    return [Combo(a, t, x) for x in motors for t in tasks for a in acts]


class GcWorld(World):
    """Interpreter with the controller package; lookup tables are built on a coarse grid of the same parity.

    The number of grid points of a table is a resolution, not a behaviour the rules speak about: integer resolutions above 40
    that a stage assigns to itself are replaced by 8 or 9."""

    def __init__(self, ck):
        super().__init__(ck)
        it = self.it
        self.coarse = COARSE
        try:
            it.load("gem_controllers")
        except AbsRaise as e:
            ck.violation("package-import", "gem_controllers", "importing raises %r" % (e.exc,))
        ops = ck.cls(it, "OperationPointSelection")

        def watch(kind, o, name, v):
            if kind == "write" and isinstance(v, int) and not isinstance(v, bool) and v > 40 and isinstance(o.cls, Cls) and o.cls.issub(ops):
                o.attrs[name] = self.coarse(v)

        it.watch = watch
        self.GC = ck.cls(it, "GemController")

    def env_of(self, c, wrappers=(), **k):
        w = list(wrappers)
        if c.motor == "scim":
            w.append(self.new("FluxObserver"))
            k.setdefault("motor", dict(motor_parameter=dict(l_sigr=0.0067)))
        k.setdefault("visualization", ())
        return self.env(cls(c.act, c.task, c.motor), physical_system_wrappers=tuple(w), **k)

    def make(self, env, c, **k):
        k.setdefault("block_diagram", False)
        return self.it.call(self.it.getattr(self.GC, "make"), [env, c.eid], k)

    def names(self, e):
        it = self.it
        return [str(x) for x in it.iterate(it.getattr(e, "state_names"))], [str(x) for x in it.iterate(it.getattr(e, "reference_names"))]

    def state(self, e, tag="state", scale=1.0):
        return arr([S("%s %s %g" % (tag, q, scale), ("range", -scale, scale)) for q in self.names(e)[0]])

    def reference(self, e, tag="reference", scale=1.0):
        return arr([S("%s ref %s %g" % (tag, q, scale), ("range", -scale, scale)) for q in self.names(e)[1]])

    def physical_state(self, e, tag="x"):
        """State vector in physical units with one symbol per state, ranging over its limits."""
        from .check import norm
        names, _ = self.names(e)
        lim = norm(self.it.getattr(e, "limits"), self.it)
        return {q: S("%s %s [%g]" % (tag, q, l), ("range", -float(l), float(l))) for q, l in zip(names, lim)}

    def parts(self, ctl):
        """speed controller, torque controller, current controller of a made controller (None where absent)."""
        it = self.it
        x = it.res(it.getattr(ctl, "controller"))
        speed = torque = None
        if x.cls.issub(self.ck.cls(it, "PISpeedController")):
            speed, x = x, it.res(it.getattr(x, "torque_controller"))
        if x.cls.issub(self.ck.cls(it, "TorqueController")):
            torque, x = x, it.res(it.getattr(x, "current_controller"))
        return speed, torque, x

    def limits(self, e):
        from .check import norm
        return dict(zip(self.names(e)[0], [float(x) for x in norm(self.it.getattr(e, "limits"), self.it)]))

    def motor_parameter(self, e):
        it = self.it
        mp = it.getattr(it.getattr(it.getattr(e, "physical_system"), "electrical_motor"), "motor_parameter")
        return dict(it.res(mp))
