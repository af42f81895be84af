"""Mechanical loads: torque balance, direction and size of the static torque, speed-imposing loads."""
from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *
from .M04 import build


def deriv(it, lo, w, T, t=None):
    r = norm(m(it, lo, "mechanical_ode", S("t", "pos") if t is None else t, arr([w]), T), it)
    while isinstance(r, list) and len(r) == 1:
        r = r[0]
    return r


def speeds(lim):
    """Speeds covering every branch of the friction characteristic, as (label, speed, sign, inside linear part)."""
    d, r = S("d", "pos"), S("r", ("range", -0.999, 0.999))
    return [
        ("forward", lim * (1 + d), 1, False),
        ("backward", lim * (1 + d) * -1, -1, False),
        ("near standstill", lim * r, None, True),
        ("standstill", 0.0, 0, True),
    ]


def static(par, j, tau_decay, w, sign, linear):
    sw = sign if sign is not None else tm.ite(tm.lt(0, w), 1, tm.ite(tm.lt(w, 0), -1, 0))
    fr = w * (j / tau_decay) if linear else par["a"] * sw
    return par["b"] * w + par["c"] * sw * w * w + fr


def polynomial(ck, it, cons, lo, par, j, decay):
    T = S("torque")
    lim = par["a"] / j * decay
    for lab, w, sign, linear in speeds(lim):
        if isinstance(par["a"], (int, float)) and par["a"] == 0:
            if lab == "near standstill":
                continue
            if sign:
                w, linear = S("w_abs", "pos") * sign, False
        q = "%s %s" % (cons, lab)
        f = deriv(it, lo, w, T)
        ck.eq("torque-balance", q, f, (T - static(par, j, decay, w, sign, linear)) / j, it=it)
        # the static torque is what is missing between driving torque and inertia torque
        st = deriv(it, lo, w, 0) * j * -1
        ck.holds("opposes-motion", q, tm.le(0, st * w), "static torque drives the motion")
        if sign == 0:
            ck.eq("standstill", q, f, T / j, it=it)


def run(ck):
    ck.rule("torque-balance", "speed derivative == (driving torque - documented static torque) / (rotor inertia + load inertia), in every branch of the friction characteristic")
    ck.rule("opposes-motion", "the static load torque never has the sign that drives the motion")
    ck.rule("standstill", "at standstill the speed derivative is driving torque over total inertia")
    ck.rule("total-inertia", "the total inertia is always that of the load plus that of the rotor it is attached to at present")
    ck.rule("system-balance", "the speed derivative the solver integrates is the load's with the torque of the motor's present state")
    ck.rule("imposed-speed", "speed-imposing loads: derivative independent of the torque and leading to the prescribed speed; reset starts at it")
    it = ck.interp()
    P = ck.cls(it, "PolynomialStaticLoad")
    for mt in ("mechanical_ode", "set_j_rotor"):
        ck.method(it, P, mt)
    decay = P.lookup("tau_decay")[0]
    full = dict(a=S("a", "pos"), b=S("b", "pos"), c=S("c", "pos"), j_load=S("j_load", "pos"))
    cases = [("all parameters", full)]
    docs = dict(a=0.0, b=0.0, c=0.0, j_load=1e-5)
    for k in full:
        cases.append(("without " + k, {q: v for q, v in full.items() if q != k}))
        cases.append(("only " + k, {k: full[k]}))
    cases.append(("defaults", {}))
    for lab, given in cases:
        it = ck.interp()
        cons = "PolynomialStaticLoad " + lab
        with ck.guard("torque-balance", cons):
            par = dict(docs, **given)
            lo = it.call(ck.cls(it, "PolynomialStaticLoad"), [], dict(load_parameter=dict(given)))
            for n, jr in enumerate((S("j_rotor", "pos"), S("j_rotor2", "pos"))):
                m(it, lo, "set_j_rotor", jr)
                q = cons + (" attached to a second rotor" if n else "")
                j = par["j_load"] + jr
                ck.eq("total-inertia", q, it.getattr(lo, "j_total"), j, it=it)
                polynomial(ck, it, q, lo, par, j, decay)
            for q, v in given.items():
                ck.eq("torque-balance", cons + " reported " + q, it.getitem(it.getattr(lo, "load_parameter"), q), v, it=it)
    # inside every drive system
    for name in MOTORS:
        cons = "%s(%s)" % (MOTORS[name]["system"], name)
        it = ck.interp()
        with ck.guard("system-balance", cons):
            lo = it.call(ck.cls(it, "PolynomialStaticLoad"), [], dict(load_parameter=dict(full)))
            rg, par, lims = build(it, name, load=lo)
            for second in (False, True):
                q = cons + (" after the load moved to a second system" if second else "")
                if second:
                    mo = make_motor(it, name, motor_params(name, "_2"))
                    rg = Rig(it, name, motor_obj=mo, load=lo)
                    par = motor_params(name, "_2")
                j = full["j_load"] + par["j_rotor"]
                ck.eq("total-inertia", q, it.getattr(lo, "j_total"), j, it=it)
                x = state_syms(name)
                us = volt_arg(name, [S(u) for u in MOTORS[name]["u"]])
                tq = norm(m(it, rg.motor, "torque", arr(list(x))), it)
                while isinstance(tq, list):
                    tq = tq[0]
                for lab, w, sign, linear in speeds(full["a"] / j * decay):
                    f = norm(it.call(rg.f, [S("t", "pos"), arr([w] + x), us], {}), it)
                    ck.eq("system-balance", "%s %s" % (q, lab), f[0], (tq - static(full, j, decay, w, sign, linear)) / j, it=it)
    imposed(ck)
    ck.min_decided = 150


def imposed(ck):
    R = "imposed-speed"
    T, T2, t, w = S("torque"), S("torque_other"), S("t", "pos"), S("w")
    it = ck.interp()
    C = ck.cls(it, "ConstantSpeedLoad")
    sp = box(it, [-1.0], [1.0])
    nom = S("nominal_speed", ("range", 1000, 2000))
    rs = dict(state_space=sp, state_positions={"omega": 0}, nominal_state=arr([nom]))
    wf = S("omega_fixed", ("range", -900, 900))
    with ck.guard(R, "ConstantSpeedLoad"):
        a = it.call(C, [], dict(omega_fixed=wf))
        b = it.call(C, [], {})
        wi = S("omega_init", ("range", -900, 900))
        user = {"states": {"omega": wi}, "interval": None, "random_init": None, "random_params": (None, None)}
        c = it.call(C, [], dict(load_initializer=user))
        d = it.call(C, [], {})
        for lab, o, want in (("given speed", a, wf), ("default", b, 0.0), ("speed in the initializer", c, wi), ("default after others", d, 0.0)):
            cons = "ConstantSpeedLoad " + lab
            m(it, o, "set_j_rotor", S("j_rotor", "pos"))
            ck.eq(R, cons + " reported", it.getattr(o, "omega_fixed"), want, it=it)
            for rep in (1, 2):
                ck.eq(R, "%s reset %d" % (cons, rep), m(it, o, "reset", **rs), [want], it=it)
            ck.eq(R, cons + " derivative", deriv(it, o, w, T), 0.0, it=it)
            jw, jt = it.iterate(m(it, o, "mechanical_jacobian", t, arr([w]), T))
            ck.eq(R, cons + " jacobian", [norm(jw, it), norm(jt, it)], [[[0.0]], [0.0]], it=it)
    it = ck.interp()
    with ck.guard(R, "ExternalSpeedLoad"):
        E = ck.cls(it, "ExternalSpeedLoad")
        for kw in ({}, dict(amplitude=S("amp"), bias=S("bias"))):
            args = [kw[k] for k in sorted(kw)]
            prof = Native("profile", lambda it, a, k: tm.fn("profile", it.num(k["t"] if "t" in k else a[0]), *[k[q] for q in sorted(k) if q != "t"]))
            tau = S("tau", "small")
            o = it.call(E, [prof], dict(tau=tau, **(dict(speed_profile_kwargs=dict(kw)) if kw else {})))
            m(it, o, "set_j_rotor", S("j_rotor", "pos"))
            cons = "ExternalSpeedLoad" + (" with profile arguments" if kw else "")
            f = deriv(it, o, w, T, t)
            ck.eq(R, cons + " reaches the prescribed speed", w + f * tau, tm.fn("profile", t + tau, *args), it=it)
            ck.eq(R, cons + " torque", deriv(it, o, w, T2, t), f, it=it)
            ck.eq(R, cons + " reported start", it.getattr(o, "omega"), tm.fn("profile", 0, *args), it=it)
            ck.eq(R, cons + " reset", m(it, o, "reset", **rs), [tm.fn("profile", 0, *args)], it=it)
    it = ck.interp()
    with ck.guard(R, "OrnsteinUhlenbeckLoad"):
        O = ck.cls(it, "OrnsteinUhlenbeckLoad")
        lo_, hi_ = S("w_low", ("range", -300, -200)), S("w_high", ("range", 200, 300))
        tau, mu, theta, sigma = S("tau", "small"), S("mu", ("range", -50, 50)), S("theta", ("range", 0.5, 2)), S("sigma", "pos")
        o = it.call(O, [], dict(mu=mu, sigma=sigma, theta=theta, tau=tau, omega_range=(lo_, hi_)))
        m(it, o, "set_j_rotor", S("j_rotor", "pos"))
        n0 = len(it.events)
        f = deriv(it, o, w, T, t)
        nxt = w + f * tau
        ck.holds(R, "OrnsteinUhlenbeckLoad stays in its range", tm.and_(tm.le(lo_ - 1e-6, nxt), tm.le(nxt, hi_ + 1e-6)), "leaves the configured speed range")
        dr = [s for s in tm.subterms(f) if s.op == "fn" and str(s.args[0]).startswith("std_")]
        ck.require(R, "OrnsteinUhlenbeckLoad torque", T not in tm.symbols(f), "depends on the driving torque")
        ck.require(R, "OrnsteinUhlenbeckLoad one draw", len(dr) == 1, "%d random draws per evaluation" % len(dr))
        if len(dr) == 1:
            mid = tm.subst(f, {dr[0]: 0})
            inner = S("w_in", ("range", -1, 1))
            ck.eq(R, "OrnsteinUhlenbeckLoad drift", tm.subst(mid, {w: inner}), theta * (mu - inner), it=it)
            # small noise inside the range: drift plus sigma over sqrt(tau) times the draw
            small = {dr[0]: S("eta", ("range", -1e-6, 1e-6)), sigma: S("sg", ("range", 0.5, 1)), w: inner}
            ck.eq(R, "OrnsteinUhlenbeckLoad diffusion", tm.subst(f, small), tm.subst(theta * (mu - w) + sigma / tm.fn("sqrt", tau) * dr[0], small), it=it)
        r = norm(m(it, o, "reset", **rs), it)
        while isinstance(r, list) and len(r) == 1:
            r = r[0]
        ck.holds(R, "OrnsteinUhlenbeckLoad reset in range", tm.and_(tm.le(lo_, r), tm.le(r, hi_)), "initial speed outside the configured range")
