"""Jacobians against term differentiation of the right-hand sides they belong to."""
import numpy as np

from .. import terms as tm
from ..check import Anchor, norm
from ..interp import arr
from ..rig import *


def grad(ck, rule, construct, got, rhs, xs, it, assume=None):
    want = []
    for f in rhs:
        try:
            want.append([tm.diff(f, x) if isinstance(f, tm.T) else 0 for x in xs])
        except tm.NotDifferentiable as e:
            ck.undecided(rule, construct, "not differentiable by rule: %s" % e)
            return
    ck.eq(rule, construct, got, want, "not the derivative of the right-hand side", assume=assume, it=it)


def motors(ck):
    ck.rule("motor-jacobian", "electrical_jacobian == term derivative of electrical_ode/torque, per entry, for symbolic parameters, state, voltage and speed")
    it = ck.interp()
    base = ck.cls(it, "ElectricMotor")
    done = set()
    for c in it.all_classes("gym_electric_motor"):
        if not c.issub(base) or c.name not in MOTORS:
            continue
        done.add(c.name)
        ck.method(it, c, "electrical_ode")
        ck.method(it, c, "torque")
        hj, _ = c.lookup("HAS_JACOBIAN")
        if hj is not True:
            ck.ok("motor-jacobian", c.name + " (offers none)")
            continue
        with ck.guard("motor-jacobian", c.name):
            mo = make_motor(it, c.name)
            x, us, w = state_syms(c.name), [S(u) for u in MOTORS[c.name]["u"]], S("omega")
            jac = m(it, mo, "electrical_jacobian", arr(x), volt_arg(c.name, us), w)
            rhs = norm(m(it, mo, "electrical_ode", arr(x), volt_arg(c.name, us), w))
            tq = norm(m(it, mo, "torque", arr(x)))
            jac = it.iterate(jac)
            if jac is None or len(jac) != 3:
                ck.violation("motor-jacobian", c.name, "does not return the three documented parts")
                continue
            grad(ck, "motor-jacobian", c.name + " d(state)/d(state)", jac[0], rhs, x, it)
            want_w = [tm.diff(f, w) if isinstance(f, tm.T) else 0 for f in rhs]
            ck.eq("motor-jacobian", c.name + " d(state)/d(omega)", np.asarray(norm(jac[1]), dtype=object).reshape(-1), want_w, it=it)
            while isinstance(tq, list) and len(tq) == 1:
                tq = tq[0]
            ck.eq("motor-jacobian", c.name + " d(torque)/d(state)", np.asarray(norm(jac[2]), dtype=object).reshape(-1), [tm.diff(tq, v) for v in x], it=it)
    for n in MOTORS:
        if n not in done:
            raise Anchor("motor class " + n)


def make_load(it, name, tag="", **kw):
    if name == "PolynomialStaticLoad":
        lp = dict(a=S("a" + tag, "pos"), b=S("b" + tag, "pos"), c=S("c" + tag, "pos"), j_load=S("j_load" + tag, "pos"))
        lp.update(kw)
        return it.call(it.find_class(name), [], {"load_parameter": lp})
    if name == "ConstantSpeedLoad":
        return it.call(it.find_class(name), [], {"omega_fixed": S("omega_fixed")})
    return it.call(it.find_class(name), [], {})


def loads(ck):
    ck.rule("load-jacobian", "mechanical_jacobian == term derivative of mechanical_ode w.r.t. speed and torque (all branches, also at the branch of zero friction)")
    it = ck.interp()
    base = ck.cls(it, "MechanicalLoad")
    for c in it.all_classes("gym_electric_motor"):
        if not c.issub(base) or c is base:
            continue
        hj, _ = c.lookup("HAS_JACOBIAN")
        if hj is not True:
            continue
        for case, kw in (("friction", {}), ("no friction", {"a": 0.0})):
            if c.name != "PolynomialStaticLoad" and case != "friction":
                continue
            cons = "%s %s" % (c.name, case)
            with ck.guard("load-jacobian", cons):
                lo = make_load(it, c.name, **kw) if c.name in ("PolynomialStaticLoad", "ConstantSpeedLoad") else it.call(c, [], {})
                jr = S("j_rotor", "pos")
                m(it, lo, "set_j_rotor", jr)
                w, T, t = S("omega"), S("torque"), S("t", "pos")
                jw, jt = it.iterate(m(it, lo, "mechanical_jacobian", t, arr([w]), T))
                f = norm(m(it, lo, "mechanical_ode", t, arr([w]), T))[0]
                # non-differentiable exactly at the kinks of the friction branch; with zero friction there is no kink
                dw = tm.diff(f, w) if isinstance(f, tm.T) else 0
                dt = tm.diff(f, T) if isinstance(f, tm.T) else 0
                nz = [tm.not_(tm.eq(w, 0))]
                ck.eq("load-jacobian", cons + " d/d(omega)", jw, [[dw]], assume=nz, it=it)
                ck.eq("load-jacobian", cons + " d/d(torque)", jt, [dt], it=it)
                # at standstill the derivative is the common limit of the derivative from both sides (when they agree)
                p = S("delta", ("range", 0.2, 2.0))
                tiny = tm.mul(1e-9, p)
                if isinstance(f, tm.T):
                    up, dn = tm.subst(dw, {w: tiny}), tm.subst(dw, {w: tm.mul(-1, tiny)})
                    at0 = [[tm.subst(x, {w: 0.0}) if isinstance(x, tm.T) else x for x in r] for r in norm(jw)]
                    if tm.compare(up, dn, tol=1e-6)[0] == "equal":
                        ck.eq("load-jacobian", cons + " d/d(omega) at standstill", at0, [[up]], it=it, tol=1e-5)


def system(ck):
    ck.rule("system-jacobian", "the Jacobian handed to the solver == term derivative of the right-hand side handed to the solver, for every motor x load pair with Jacobians")
    ck.rule("jacobian-offered", "a Jacobian is handed to the solver exactly if motor and load both offer one (and it was not declined)")
    for name in MOTORS:
        for lname in ("PolynomialStaticLoad", "ConstantSpeedLoad"):
            it = ck.interp()
            cons = "%s with %s" % (MOTORS[name]["system"] + "(" + name + ")", lname)
            with ck.guard("system-jacobian", cons):
                lo = make_load(it, lname, "_l")
                rg = Rig(it, name, load=lo)
                x = [S("omega")] + state_syms(name)
                us = [S(u) for u in MOTORS[name]["u"]]
                t = S("t", "pos")
                hj = rg.motor.cls.lookup("HAS_JACOBIAN")[0] is True and lo.cls.lookup("HAS_JACOBIAN")[0] is True
                ck.require("jacobian-offered", cons, (rg.jac is not None) == hj, "jac handed over: %s, available: %s" % (rg.jac is not None, hj))
                if rg.jac is None:
                    continue
                for rep in (1, 2):
                    jac = _snap(it.call(rg.jac, [t, arr(x), volt_arg(name, us)], {}))
                    rhs = norm(_snap(it.call(rg.f, [t, arr(x), volt_arg(name, us)], {})))
                    assume = [tm.not_(tm.eq(x[0], 0))]
                    grad(ck, "system-jacobian", cons + (" (repeated call)" if rep == 2 else ""), jac, rhs, x, it, assume)
            it = ck.interp()
            with ck.guard("jacobian-offered", cons + " declined"):
                rg = Rig(it, name, load=make_load(it, lname, "_l"), calc_jacobian=False)
                ck.require("jacobian-offered", cons + " declined", rg.jac is None, "calc_jacobian=False still passes a Jacobian")


def _snap(a):
    return a.copy() if isinstance(a, np.ndarray) else a


def run(ck):
    motors(ck)
    loads(ck)
    system(ck)
    ck.min_decided = 20
