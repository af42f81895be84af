"""Motor equations: residuals of the documented voltage/torque equations and the conversion power balance."""
import numpy as np

from .. import terms as tm
from ..check import Anchor, norm
from ..interp import arr
from ..rig import *



def MUL(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = tm.mul(r, x)
    return r


def sumt(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = tm.add(r, x)
    return r


def neg(x):
    return MUL(-1, x)


def flat(v):
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    return v


def models():
    """name -> function(p, x, dx, u, w) -> (residuals that must vanish, torque, [(weight, e_i)], energy) as documented."""

    def permex(p, x, dx, u, w):
        i, di = x[0], dx[0]
        return [sumt(MUL(p["r_a"], i), MUL(p["l_a"], di), MUL(p["psi_e"], w), neg(u[0]))], MUL(p["psi_e"], i), dict(
            pin=MUL(u[0], i), loss=MUL(p["r_a"], i, i), dW=MUL(p["l_a"], i, di))

    def extex(p, x, dx, u, w):
        ia, ie = x
        return [
            sumt(MUL(p["r_a"], ia), MUL(p["l_a"], dx[0]), MUL(p["l_e_prime"], ie, w), neg(u[0])),
            sumt(MUL(p["r_e"], ie), MUL(p["l_e"], dx[1]), neg(u[1])),
        ], MUL(p["l_e_prime"], ia, ie), dict(
            pin=sumt(MUL(u[0], ia), MUL(u[1], ie)), loss=sumt(MUL(p["r_a"], ia, ia), MUL(p["r_e"], ie, ie)), dW=sumt(MUL(p["l_a"], ia, dx[0]), MUL(p["l_e"], ie, dx[1])))

    def series(p, x, dx, u, w):
        i, di = x[0], dx[0]
        r, l = sumt(p["r_a"], p["r_e"]), sumt(p["l_a"], p["l_e"])
        return [sumt(MUL(r, i), MUL(l, di), MUL(p["l_e_prime"], i, w), neg(u[0]))], MUL(p["l_e_prime"], i, i), dict(
            pin=MUL(u[0], i), loss=MUL(r, i, i), dW=MUL(l, i, di))

    def shunt(p, x, dx, u, w):
        return extex(p, x, dx, [u[0], u[0]], w)

    def sync(p, x, dx, u, w, psi=None):
        d, q = x[0], x[1]
        wel = MUL(p["p"], w)
        fd = sumt(MUL(p["l_d"], d), psi if psi is not None else 0)
        res = [
            sumt(MUL(p["r_s"], d), MUL(p["l_d"], dx[0]), neg(MUL(wel, p["l_q"], q)), neg(u[0])),
            sumt(MUL(p["r_s"], q), MUL(p["l_q"], dx[1]), MUL(wel, fd), neg(u[1])),
            sumt(dx[-1], neg(wel)),
        ]
        tq = MUL(1.5, p["p"], sumt(psi if psi is not None else 0, MUL(sumt(p["l_d"], neg(p["l_q"])), d)), q)
        return res, tq, dict(
            pin=MUL(1.5, sumt(MUL(u[0], d), MUL(u[1], q))),
            loss=MUL(1.5, p["r_s"], sumt(MUL(d, d), MUL(q, q))),
            dW=MUL(1.5, sumt(MUL(p["l_d"], d, dx[0]), MUL(p["l_q"], q, dx[1]))),
        )

    def pmsm(p, x, dx, u, w):
        return sync(p, x, dx, u, w, p["psi_p"])

    def eesm(p, x, dx, u, w):
        d, q, e = x[0], x[1], x[2]
        wel = MUL(p["p"], w)
        res = [
            sumt(MUL(p["r_s"], d), MUL(p["l_d"], dx[0]), MUL(p["l_m"], dx[2]), neg(MUL(wel, p["l_q"], q)), neg(u[0])),
            sumt(MUL(p["r_s"], q), MUL(p["l_q"], dx[1]), MUL(wel, sumt(MUL(p["l_d"], d), MUL(p["l_m"], e))), neg(u[1])),
            sumt(MUL(p["r_e"], e), MUL(p["l_e"], dx[2]), MUL(1.5, p["l_m"], dx[0]), neg(u[2])),
            sumt(dx[3], neg(wel)),
        ]
        tq = MUL(1.5, p["p"], sumt(MUL(p["l_m"], e), MUL(sumt(p["l_d"], neg(p["l_q"])), d)), q)
        return res, tq, dict(
            pin=sumt(MUL(1.5, sumt(MUL(u[0], d), MUL(u[1], q))), MUL(u[2], e)),
            loss=sumt(MUL(1.5, p["r_s"], sumt(MUL(d, d), MUL(q, q))), MUL(p["r_e"], e, e)),
            dW=sumt(MUL(1.5, p["l_d"], d, dx[0]), MUL(1.5, p["l_q"], q, dx[1]), MUL(p["l_e"], e, dx[2]), MUL(1.5, p["l_m"], sumt(MUL(d, dx[2]), MUL(e, dx[0])))),
        )

    def induction(p, x, dx, u, w):
        ia, ib, pa, pb, _ = x
        dia, dib, dpa, dpb, de = dx
        ls, lr, lm = sumt(p["l_m"], p["l_sigs"]), sumt(p["l_m"], p["l_sigr"]), p["l_m"]
        ilr = tm.power(lr, -1)
        wel = MUL(p["p"], w)
        # rotor currents from the rotor flux linkage psi_r = l_m i_s + l_r i_r
        ra, rb = MUL(ilr, sumt(pa, neg(MUL(lm, ia)))), MUL(ilr, sumt(pb, neg(MUL(lm, ib))))
        dra, drb = MUL(ilr, sumt(dpa, neg(MUL(lm, dia)))), MUL(ilr, sumt(dpb, neg(MUL(lm, dib))))
        ua, ub = u[0], u[1]
        ura, urb = (u[2], u[3]) if len(u) > 2 else (0, 0)
        res = [
            sumt(MUL(p["r_s"], ia), MUL(ls, dia), MUL(lm, dra), neg(ua)),
            sumt(MUL(p["r_s"], ib), MUL(ls, dib), MUL(lm, drb), neg(ub)),
            sumt(MUL(p["r_r"], ra), dpa, MUL(wel, pb), neg(ura)),
            sumt(MUL(p["r_r"], rb), dpb, neg(MUL(wel, pa)), neg(urb)),
            sumt(de, neg(wel)),
        ]
        tq = MUL(1.5, p["p"], lm, ilr, sumt(MUL(pa, ib), neg(MUL(pb, ia))))
        psa, psb = sumt(MUL(ls, dia), MUL(lm, dra)), sumt(MUL(ls, dib), MUL(lm, drb))
        return res, tq, dict(
            pin=MUL(1.5, sumt(MUL(ua, ia), MUL(ub, ib), MUL(ura, ra), MUL(urb, rb))),
            loss=MUL(1.5, sumt(MUL(p["r_s"], sumt(MUL(ia, ia), MUL(ib, ib))), MUL(p["r_r"], sumt(MUL(ra, ra), MUL(rb, rb))))),
            dW=MUL(1.5, sumt(MUL(ia, psa), MUL(ib, psb), MUL(ra, dpa), MUL(rb, dpb))),
        )

    return {
        "DcPermanentlyExcitedMotor": permex,
        "DcExternallyExcitedMotor": extex,
        "DcSeriesMotor": series,
        "DcShuntMotor": shunt,
        "PermanentMagnetSynchronousMotor": pmsm,
        "SynchronousReluctanceMotor": sync,
        "ExternallyExcitedSynchronousMotor": eesm,
        "SquirrelCageInductionMotor": induction,
        "DoublyFedInductionMotor": induction,
    }


def run(ck):
    ck.rule("voltage-equation", "the derivatives returned by electrical_ode satisfy the documented voltage, flux and angle equations of the machine for all parameters, states, voltages and speeds")
    ck.rule("torque-equation", "torque() equals the documented torque equation for all parameters and states")
    ck.rule("power-balance", "terminal power - copper loss - change of magnetic energy == torque * speed, from the implemented ODE and torque alone")
    ck.rule("model-repeatable", "a second evaluation with other arguments does not change the equations (no state kept between evaluations)")
    ck.rule("terminal-current", "i_in() hands the converter the currents flowing out of its terminals")
    ck.rule("passive", "with the default parameters the short-circuited machine at standstill is dissipative: no eigenvalue of the coefficient matrix has a positive real part")
    mods = models()
    it = ck.interp()
    base = ck.cls(it, "ElectricMotor")
    for name, model in mods.items():
        c = ck.cls(it, name)
        for mth in ("electrical_ode", "torque", "i_in"):
            ck.method(it, c, mth)
        for case in ("given parameters", "default parameters"):
            cons = "%s %s" % (name, case)
            with ck.guard("voltage-equation", cons):
                if case == "given parameters":
                    p = motor_params(name)
                    mo = make_motor(it, name)
                else:
                    mo = make_motor(it, name, {})
                    dp = it.res(it.getattr(mo, "motor_parameter"))
                    p = {k: dp[k] for k in MOTORS[name]["par"].split()}
                x, us, w = state_syms(name), [S(u) for u in MOTORS[name]["u"]], S("omega")
                dx = norm(m(it, mo, "electrical_ode", arr(x), volt_arg(name, us), w), it)
                tq = flat(norm(m(it, mo, "torque", arr(x)), it))
                res, wt, pw = model(p, x, dx, us, w)
                if len(dx) != len(x):
                    ck.violation("voltage-equation", cons, "%d derivatives for %d states" % (len(dx), len(x)))
                    continue
                # the residual is compared side by side to keep a scale for the numeric tolerance
                for k, r in enumerate(res):
                    lhs, rhs = split(r)
                    ck.eq("voltage-equation", "%s equation %d" % (cons, k + 1), lhs, rhs, it=it)
                ck.eq("torque-equation", cons, tq, wt, it=it)
                ck.eq("power-balance", cons, sumt(pw["pin"], neg(pw["loss"]), neg(pw["dW"])), MUL(tq, w), it=it, tol=1e-6)
                # other arguments, then the first ones again
                ren = {s: S(s.args[0] + "_2", "real") for s in x + us + [w]}
                first = [tm.subst(d, ren) if isinstance(d, tm.T) else d for d in dx]
                x2, us2 = [ren[s] for s in x], [ren[s] for s in us]
                a = m(it, mo, "electrical_ode", arr(x2), volt_arg(name, us2), ren[w])
                a0 = a.copy() if isinstance(a, np.ndarray) else a
                b = m(it, mo, "electrical_ode", arr(x), volt_arg(name, us), w)
                ck.eq("model-repeatable", cons + " other arguments", a0, first, it=it)
                ck.eq("model-repeatable", cons + " again", b, dx, it=it)
                ck.require("model-repeatable", cons + " result kept", a is not b, "two evaluations return the same array object")
        with ck.guard("terminal-current", name):
            mo = make_motor(it, name)
            x = state_syms(name)
            got = norm(m(it, mo, "i_in", arr(x)), it)
            n = len(MOTORS[name]["i"])
            want = x[:n] if name != "DcShuntMotor" else [sumt(x[0], x[1])]
            if name == "DoublyFedInductionMotor":
                ck.eq("terminal-current", name, got[:2], x[:2], it=it)
            else:
                ck.eq("terminal-current", name, got, want, it=it)
        with ck.guard("passive", name):
            mo = make_motor(it, name, {})
            n = len(MOTORS[name]["x"])
            us = [0.0] * len(MOTORS[name]["u"])
            at = lambda x: np.array([float(v) for v in norm(m(it, mo, "electrical_ode", arr(x), volt_arg(name, us), 0.0), it)])
            zero = at([0.0] * n)
            A = np.array([at([1.0 if j == k else 0.0 for j in range(n)]) - zero for k in range(n)]).T
            top = max(np.linalg.eigvals(A).real)
            ck.require("passive", name, top <= 1e-9 * np.abs(A).max(), "with the default parameters, short-circuited terminals and standstill the currents grow with the rate %+.4g 1/s" % top)
    extra = [c.name for c in it.all_classes("gym_electric_motor") if c.issub(base) and c.name not in mods and concrete(it, c)]
    ck.require("voltage-equation", "every motor class has a model", not extra or None, "no documented model known for %s" % extra)
    ck.min_decided = 80


def concrete(it, c):
    v, owner = c.lookup("electrical_ode")
    return owner is not None and owner.name != "ElectricMotor" and c.name not in ("DcMotor", "SynchronousMotor", "InductionMotor", "ThreePhaseMotor")


def split(r):
    """A residual term a1+...+an == 0 as a1+...+(n-1) == -an."""
    return tm.add(r, S("scale")), S("scale")
