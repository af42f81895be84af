"""Shared builders: motors with symbolic parameters, drive systems around component summaries."""
import numpy as np

from . import terms as tm
from .interp import arr, MockProp
from .values import *

S = tm.sym
PI = float(np.pi)


def pos(*names):
    return {n: S(n, "pos") for n in names}


# documented machine parameters of every motor class of the library
MOTORS = {
    "DcPermanentlyExcitedMotor": dict(par="r_a l_a psi_e j_rotor", i=["i"], u=["u"], x=["i"], system="DcMotorSystem"),
    "DcExternallyExcitedMotor": dict(par="r_a r_e l_a l_e_prime l_e j_rotor", i=["i_a", "i_e"], u=["u_a", "u_e"], x=["i_a", "i_e"], system="DcMotorSystem"),
    "DcSeriesMotor": dict(par="r_a r_e l_a l_e_prime l_e j_rotor", i=["i"], u=["u"], x=["i"], system="DcMotorSystem"),
    "DcShuntMotor": dict(par="r_a r_e l_a l_e_prime l_e j_rotor", i=["i_a", "i_e"], u=["u"], x=["i_a", "i_e"], system="DcMotorSystem"),
    "PermanentMagnetSynchronousMotor": dict(par="p l_d l_q j_rotor r_s psi_p", i=["i_sd", "i_sq"], u=["u_sd", "u_sq"], x=["i_sd", "i_sq", "epsilon"], system="SynchronousMotorSystem"),
    "SynchronousReluctanceMotor": dict(par="p l_d l_q j_rotor r_s", i=["i_sd", "i_sq"], u=["u_sd", "u_sq"], x=["i_sd", "i_sq", "epsilon"], system="SynchronousMotorSystem"),
    "ExternallyExcitedSynchronousMotor": dict(par="p l_d l_q l_m l_e j_rotor r_s r_e k", i=["i_sd", "i_sq", "i_e"], u=["u_sd", "u_sq", "u_e"], x=["i_sd", "i_sq", "i_e", "epsilon"], system="ExternallyExcitedSynchronousMotorSystem"),
    "SquirrelCageInductionMotor": dict(par="p l_m l_sigs l_sigr j_rotor r_s r_r", i=["i_salpha", "i_sbeta"], u=["u_salpha", "u_sbeta"], x=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"], system="SquirrelCageInductionMotorSystem"),
    "DoublyFedInductionMotor": dict(par="p l_m l_sigs l_sigr j_rotor r_s r_r", i=["i_salpha", "i_sbeta"], u=["u_salpha", "u_sbeta", "u_ralpha", "u_rbeta"], x=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"], system="DoublyFedInductionMotorSystem"),
}


def motor_params(name, tag=""):
    return {p: S(p + tag, "pos") for p in MOTORS[name]["par"].split()}


def state_syms(name, tag=""):
    return [S(x + tag, "angle" if x == "epsilon" else "real") for x in MOTORS[name]["x"]]


def volt_arg(name, us):
    if name == "DoublyFedInductionMotor":
        return arr([[us[0], us[1]], [us[2], us[3]]])
    return arr(list(us))


def make_motor(it, name, params=None, **kw):
    c = it.find_class(name)
    params = motor_params(name) if params is None else params
    a = dict(kw)
    if params:
        a["motor_parameter"] = dict(params)
    return it.call(c, [], a)


def m(it, o, name, *args, **kw):
    return it.call(it.getattr(o, name), list(args), kw)


def clark(a, b, c):
    return [tm.mul(2 / 3.0, tm.add(a, tm.mul(-0.5, tm.add(b, c)))), tm.mul(3 ** -0.5, tm.add(b, tm.mul(-1, c)))]


def clark_inv(al, be):
    return [al, tm.add(tm.mul(-0.5, al), tm.mul(3 ** 0.5 / 2, be)), tm.add(tm.mul(-0.5, al), tm.mul(-(3 ** 0.5) / 2, be))]


def rot(x, y, eps):
    c, s = tm.fn("cos", eps), tm.fn("sin", eps)
    return [tm.add(tm.mul(c, x), tm.mul(-1, tm.mul(s, y))), tm.add(tm.mul(s, x), tm.mul(c, y))]


def park(x, y, eps):
    return rot(x, y, tm.mul(-1, eps))


def abc_dq(abc, eps):
    return park(*clark(*abc), eps)


def dq_abc(dq, eps):
    return clark_inv(*rot(dq[0], dq[1], eps))


def wrap(eps):
    r = tm.fn("mod", eps, 2 * PI) if False else None
    return r


def box(it, low, high):
    return it.ext.call(Ext("gymnasium.spaces.Box"), [arr(list(low)), arr(list(high))], {})


class Rig:
    """A drive system of the library with opaque converter, supply and solver."""

    def __init__(self, it, motor, system=None, load=None, n_sub=1, tau=None, params=None, n_sup=1, symbolic_limits=False, motor_obj=None, **kw):
        self.it = it
        self.name = motor
        spec = MOTORS[motor]
        self.spec = spec
        self.log = []
        self.tau = S("tau", "small") if tau is None else tau
        self.motor = motor_obj or make_motor(it, motor, params)
        self.load = load or it.call(it.find_class("PolynomialStaticLoad"), [], {})
        self.n_sub = n_sub
        self.n_sup = n_sup
        nph = {"DoublyFedInductionMotor": 6, "ExternallyExcitedSynchronousMotor": 4}.get(motor)
        if nph is None:
            nph = len(spec["u"]) if spec["system"] == "DcMotorSystem" else 3
        self.nph = nph
        self.n_convert = 0
        self.n_supply = 0
        self.n_int = 0
        self.y = None
        self.t = None
        self.fpar = None
        self.k = 0
        R = self

        def rec(kind, *a):
            R.log.append((kind,) + a)

        def set_action(it, action, t):
            rec("set_action", action, t)
            times = [S("ts%d" % j) for j in range(R.n_sub - 1)] + [tm.add(t, R.tau)]
            return list(times)

        def convert(it, i_out, t):
            R.n_convert += 1
            rec("convert", _copy(i_out), t, R.n_convert)
            return [S("v%d_%d" % (R.n_convert, j)) for j in range(R.nph)]

        def i_sup(it, i_out):
            rec("i_sup", _copy(i_out))
            return S("isup%d" % len(R.log))

        def creset(it):
            rec("conv_reset")
            return [S("vr_%d" % j) for j in range(R.nph)]

        self.converter = Mock(
            "converter",
            attrs=dict(
                action_space=box(it, [-1.0] * nph, [1.0] * nph),
                currents=box(it, [-1.0] * nph, [1.0] * nph),
                voltages=box(it, [-1.0] * nph, [1.0] * nph),
                tau=S("tau_conv0", "small"),
                subsignal_voltage_space_dims=arr([3, 3] if nph == 6 else [3, 1] if nph == 4 else [nph]),
            ),
            methods=dict(set_action=set_action, convert=convert, i_sup=i_sup, reset=creset),
        )

        def get_voltage(it, t, i):
            R.n_supply += 1
            rec("get_voltage", t, i, R.n_supply)
            return [S("us%d" % R.n_supply + ("_%d" % j if j else ""), "pos") for j in range(R.n_sup)]

        def sreset(it):
            rec("supply_reset")
            return [S("usr" + ("_%d" % j if j else ""), "pos") for j in range(R.n_sup)]

        self.u_nom = S("u_nominal", "pos")
        self.supply = Mock(
            "supply",
            attrs=dict(u_nominal=self.u_nom, supply_range=(0.0, self.u_nom), voltage_len=n_sup),
            methods=dict(get_voltage=get_voltage, reset=sreset),
        )

        def set_eq(it, f, jac=None):
            rec("set_eq", f, jac)
            R.f, R.jac = f, jac

        def set_init(it, y, t=0):
            rec("set_initial", _copy(y), t)
            R.y, R.t = _copy(y), t

        def set_par(it, *a):
            rec("f_params", [_copy(x) for x in a])
            R.fpar = a

        def integrate(it, t):
            R.n_int += 1
            n = len(R.y)
            R.y = arr([S("y%d_%d" % (R.n_int, j)) for j in range(n)])
            R.t = t
            rec("integrate", t, R.fpar, R.n_int)
            return R.y

        self.solver = Mock(
            "solver",
            attrs=dict(t=MockProp(lambda it: R.t), y=MockProp(lambda it: R.y)),
            methods=dict(set_system_equation=set_eq, set_initial_value=set_init, set_f_params=set_par, integrate=integrate),
        )
        c = it.find_class(system or spec["system"])
        self.cls = c
        a = dict(converter=self.converter, motor=self.motor, load=self.load, supply=self.supply, ode_solver=self.solver, tau=self.tau)
        a.update(kw)
        self.sys = it.call(c, [], a)
        self.ode_dim = 1 + len(spec["x"])

    def start(self, y0=None, t0=0):
        """Put the solver into a symbolic state as after a reset and some steps."""
        self.y = y0 if y0 is not None else arr([S("y0_%d" % j) for j in range(self.ode_dim)])
        self.t = t0
        return self.y

    def kinds(self, k):
        return [e for e in self.log if e[0] == k]


def _copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [_copy(y) for y in x]
    return x
