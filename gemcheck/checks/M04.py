"""Slots of the state vectors against the meaning of the state names; order of events inside one step."""
import numpy as np

from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *
from ..systems import *


def build(it, name, **kw):
    par = motor_params(name)
    lims = distinct(name)
    mo = make_motor(it, name, par)
    for table in ("limits", "nominal_values"):
        it.res(it.getattr(mo, table)).update(lims)
    return Rig(it, name, motor_obj=mo, params=par, **kw), par, lims


def wanted_names(name):
    return sorted(["omega", "torque", "u_sup"] + io_names(name) + ([] if MOTORS[name]["system"] == "DcMotorSystem" else ["epsilon"]))


def slots(ck, it, rule, cons, rg, vec, q, lims):
    names = it.iterate(it.getattr(rg.sys, "state_names"))
    vec = norm(vec, it)
    if not isinstance(vec, list) or len(vec) != len(names):
        ck.violation(rule, cons, "vector of length %s for %d state names" % (len(vec) if isinstance(vec, list) else vec, len(names)))
        return
    # limits by name, never by position: the motor's and the load's own tables
    mlim = it.res(it.getattr(rg.motor, "limits"))
    llim = it.res(it.getattr(rg.load, "limits"))
    for n, got in zip(names, vec):
        lim = min(x for x in (mlim.get(n, np.inf), llim.get(n, np.inf))) if n != "u_sup" else rg.u_nom
        if n not in q:
            ck.undecided(rule, "%s %s" % (cons, n), "no documented meaning")
            continue
        ck.eq(rule, "%s %s" % (cons, n), got, q[n] / lim, it=it)


def run(ck):
    ck.rule("simulate-slot", "each slot of the vector returned by simulate() is the quantity its state name announces at the end of the step, divided by that name's limit")
    ck.rule("reset-slot", "the same for the vector returned by reset()")
    ck.rule("state-names", "the state names are exactly the documented states of the machine, each once")
    ck.rule("vector-fresh", "the returned vectors are not overwritten by later steps")
    for name in MOTORS:
        sysn = MOTORS[name]["system"]
        cons = "%s(%s)" % (sysn, name)
        it = ck.interp()
        sc = ck.cls(it, sysn)
        for mt in ("simulate", "reset"):
            ck.method(it, sc, mt)
        with ck.guard("state-names", cons):
            rg, par, lims = build(it, name)
            names = it.iterate(it.getattr(rg.sys, "state_names"))
            ck.require("state-names", cons, sorted(names) == wanted_names(name), "%s" % names)
            pos = it.res(it.getattr(rg.sys, "state_positions"))
            ck.require("state-names", cons + " positions", pos == {n: i for i, n in enumerate(names)}, "%s" % pos)
        for nsub in (1, 2, 3):
            it = ck.interp()
            c2 = "%s %d sub-interval%s" % (cons, nsub, "s" if nsub > 1 else "")
            with ck.guard("simulate-slot", c2):
                rg, par, lims = build(it, name, n_sub=nsub)
                rg.start()
                act = arr([S("act%d" % i) for i in range(rg.nph)])
                kept = []
                for step in (1, 2):
                    vec = m(it, rg.sys, "simulate", act)
                    kept.append((vec, norm(vec, it)))
                    k = rg.n_int
                    y = [S("y%d_%d" % (k, j)) for j in range(rg.ode_dim)]
                    y0 = [S("y%d_%d" % (k - 1, j)) for j in range(rg.ode_dim)]
                    us = [S("us%d" % rg.n_supply, "pos")]
                    v = [S("v%d_%d" % (rg.n_convert, j)) * us[0] for j in range(rg.nph)]
                    tq = norm(m(it, rg.motor, "torque", arr(y[1:])), it)
                    while isinstance(tq, list):
                        tq = tq[0]
                    slots(ck, it, "simulate-slot", "%s step %d" % (c2, step), rg, vec, quantities(name, y, v, us, tq, y0, par), lims)
                for n, (a, b) in enumerate(kept):
                    ck.eq("vector-fresh", "%s step %d" % (c2, n + 1), a, b, it=it)
        it = ck.interp()
        with ck.guard("reset-slot", cons):
            rg, par, lims = build(it, name)
            x = [S("x%d" % j) for j in range(rg.ode_dim)]
            if sysn != "DcMotorSystem":
                x[-1] = S("xeps", ("range", -3.14, 3.14))  # initial angles outside the limits are rejected by the motor
            stub(it, rg, x)
            for rep in ("", " again"):
                vec = m(it, rg.sys, "reset")
                us = [S("usr", "pos")]
                v = [S("vr_%d" % j) * us[0] for j in range(rg.nph)]
                tq = norm(m(it, rg.motor, "torque", arr(x[1:])), it)
                while isinstance(tq, list):
                    tq = tq[0]
                slots(ck, it, "reset-slot", cons + rep, rg, vec, quantities(name, x, v, us, tq, x, par), lims)
                if rep == "":
                    first, snap = vec, norm(vec, it)
                    m(it, rg.sys, "simulate", arr([S("act%d" % i) for i in range(rg.nph)]))
                    ck.eq("vector-fresh", cons + " reset", first, snap, it=it)
    ck.min_decided = 300


def stub(it, rg, x):
    """Let motor and load resets return the symbolic initial state (their own initialisation is decided by M11)."""
    it.setattr(rg.motor, "reset", Native("motor.reset", lambda it2, *a, **k: arr(list(x[1:]))))
    it.setattr(rg.load, "reset", Native("load.reset", lambda it2, *a, **k: arr([x[0]])))
