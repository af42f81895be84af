"""Solvers: explicit Euler update terms, adapter argument flow, time/state bookkeeping, freshness of the right-hand side."""
from .. import terms as tm
from .. import models
from ..check import norm, same
from ..interp import arr
from ..rig import *
from .M04 import build

N = 3


def rhs(calls):
    def f(it, a, k):
        t, y, u = a[0], a[1], a[2:]
        ys = models.flat(it, y)
        us = models.flat(it, list(u))
        calls.append((t, ys, us))
        return arr([tm.fn("f", k, it.num(t), *(ys + us)) for k in range(len(ys))])

    return Native("rhs", f)


def jac():
    return Native("jacobian", lambda it, a, k: arr([[S("J%d%d" % (a, b)) for b in range(N)] for a in range(N)]))


def euler(y, t0, t1, u, n):
    h = (t1 - t0) / n
    for k in range(n):
        t = t0 + h * k
        f = [tm.fn("f", j, t, *(y + u)) for j in range(N)]
        y = [a + b * h for a, b in zip(y, f)]
    return y


def history(ck, cname, cons, kwargs, want_step, n_steps=3, with_jac=True):
    it = ck.interp()
    c = ck.cls(it, cname)
    for mt in ("integrate", "set_initial_value", "set_f_params", "set_system_equation"):
        ck.method(it, c, mt)
    with ck.guard("state-at-requested-time", cons):
        s = it.call(c, [], dict(kwargs))
        calls = []
        f, J = rhs(calls), jac() if with_jac else None
        m(it, s, "set_system_equation", f, J)
        for ep in (1, 2):
            y = [S("y%d_ep%d" % (k, ep)) for k in range(N)]
            t = S("t_ep%d" % ep, ("range", 0, 1)) if ep == 2 else 0
            y0 = arr(list(y))
            m(it, s, "set_initial_value", y0, t)
            ck.eq("state-at-requested-time", "%s episode %d initial time" % (cons, ep), it.getattr(s, "t"), t, it=it)
            ck.eq("state-at-requested-time", "%s episode %d initial state" % (cons, ep), it.getattr(s, "y"), y, it=it)
            kept = []
            for n in range(n_steps):
                q = "%s episode %d step %d" % (cons, ep, n + 1)
                u = [S("u%d_%d" % (n, ep)), S("w%d_%d" % (n, ep))]
                m(it, s, "set_f_params", arr(list(u)))
                t1 = t + S("h%d" % n, ("range", 1e-5, 1e-3))
                ev0 = len(it.events)
                r = m(it, s, "integrate", t1)
                want = want_step(it, f, y, t, t1, u)
                ck.eq("continues", q, r, want, it=it)
                ck.eq("state-at-requested-time", q + " time", it.getattr(s, "t"), t1, it=it)
                ck.eq("state-at-requested-time", q + " state", it.getattr(s, "y"), r, it=it)
                library_args(ck, it, q, it.events[ev0:], f, J, kwargs, cname)
                kept.append((r, want, q))
                y, t = norm(r, it), t1
            for r, want, q in kept:
                ck.eq("results-kept", q, r, want, it=it)
            ck.eq("results-kept", "%s episode %d caller's initial value" % (cons, ep), y0, [S("y%d_ep%d" % (k, ep)) for k in range(N)], it=it)
        if not with_jac:
            return
        lib = [e for e in it.events if e.kind == "lib"]
        if cname == "ScipyOdeSolver":
            ctor = [e for e in lib if e.name == "ode"]
            ck.require("adapter-arguments", cons + " constructor", len(ctor) == 1 and ctor[0].args[0] is f and ctor[0].args[1] is J, "right-hand side or Jacobian not handed to scipy.integrate.ode")
            si = [e for e in lib if e.name == "ode.set_integrator"]
            kw = {k: v for k, v in kwargs.items() if k != "integrator"}
            got = (si[-1].args[0] if si and si[-1].args else si[-1].kwargs.get("name") if si else None)
            gkw = {k: v for k, v in (si[-1].kwargs if si else {}).items() if k != "name"}
            ck.require("adapter-arguments", cons + " integrator", len(si) >= 1 and got == kwargs.get("integrator", "dopri5") and gkw == kw, "integrator %s with %s" % (got, gkw))


def library_args(ck, it, q, events, f, J, kwargs, cname):
    lib = [e for e in events if e.kind == "lib"]
    if cname == "ScipyOdeSolver":
        n = [e for e in lib if e.name == "ode.integrate"]
        ck.require("adapter-arguments", q, len(n) == 1, "%d library integrations" % len(n))
        if n and J is not None:
            o = n[0].obj
            if o is not None:
                st, w = same(models.flat(it, list(o.attrs["jac_params"])), models.flat(it, list(o.attrs["f_params"])), None, it)
                ck.require("adapter-arguments", q + " Jacobian parameters", st == "equal", "Jacobian gets other parameters than the right-hand side: %s" % w)
    elif cname == "ScipySolveIvpSolver":
        n = [e for e in lib if e.name == "solve_ivp"]
        ok = len(n) == 1
        ck.require("adapter-arguments", q, ok, "%d library integrations" % len(n))
        if not ok:
            return
        k = n[0].kwargs
        ck.require("adapter-arguments", q + " right-hand side", k.get("fun") is f, "%s" % k.get("fun"))
        for name, v in kwargs.items():
            ck.require("adapter-arguments", q + " option " + name, k.get(name) == v, "%s instead of %s" % (k.get(name), v))
        if J is not None:
            if kwargs.get("method") in ("Radau", "BDF", "LSODA"):
                ck.require("adapter-arguments", q + " Jacobian", k.get("jac") is J, "implicit method runs with Jacobian %s" % k.get("jac"))
            else:
                ck.require("adapter-arguments", q + " Jacobian", k.get("jac") in (J, None), "%s" % k.get("jac"))
    elif cname == "ScipyOdeIntSolver":
        n = [e for e in lib if e.name == "odeint"]
        ok = len(n) == 1
        ck.require("adapter-arguments", q, ok, "%d library integrations" % len(n))
        if not ok:
            return
        k = n[0].kwargs
        ck.require("adapter-arguments", q + " right-hand side", k.get("func") is f and k.get("tfirst") is True, "right-hand side %s, tfirst=%s" % (k.get("func"), k.get("tfirst")))
        ck.require("adapter-arguments", q + " Jacobian", k.get("Dfun") is J, "%s" % k.get("Dfun"))
        for name, v in kwargs.items():
            ck.require("adapter-arguments", q + " option " + name, k.get(name) == v, "%s instead of %s" % (k.get(name), v))
    else:
        ck.require("adapter-arguments", q, not lib, "library integration inside the explicit Euler solver")


def run(ck):
    ck.rule("state-at-requested-time", "after set_initial_value and integrate(t) the solver's time is the given one and its state the returned one")
    ck.rule("continues", "each integration maps the stored state and time with the current input to the end state: documented Euler update over its sub-steps, or the library integrator on exactly these arguments")
    ck.rule("adapter-arguments", "right-hand side, Jacobian, parameters and options reach the library integrator unchanged")
    ck.rule("results-kept", "returned states and the caller's initial value are not overwritten by later integrations")
    ck.rule("fresh-derivative", "evaluating the system equation or its Jacobian again leaves earlier evaluations and the passed state unchanged")
    ns = (1, 2, 3, 4) if ck.tier == "quick" else (1, 2, 3, 4, 5, 7, 10)
    for n in ns:
        history(ck, "EulerSolver", "EulerSolver nsteps=%d" % n, {} if n == 1 else dict(nsteps=n), lambda it, f, y, t0, t1, u, n=n: euler(y, t0, t1, u, n))

    def lib(it, f, y, t0, t1, u):
        return models.flow(it, f, t0, t1, y, u)

    for wj in (True, False):
        j = "" if wj else " no Jacobian"
        history(ck, "ScipyOdeSolver", "ScipyOdeSolver" + j, {}, lib, with_jac=wj)
        history(ck, "ScipyOdeSolver", "ScipyOdeSolver lsoda" + j, dict(integrator="lsoda", rtol=1e-5, nsteps=50), lib, with_jac=wj)
        history(ck, "ScipyOdeIntSolver", "ScipyOdeIntSolver" + j, dict(rtol=1e-5, mxstep=77), lib, with_jac=wj)
        for meth in (None, "RK45", "Radau", "BDF", "LSODA"):
            history(ck, "ScipySolveIvpSolver", "ScipySolveIvpSolver %s%s" % (meth, j), dict(dict(method=meth) if meth else {}, rtol=1e-5, max_step=1e-3), lib, with_jac=wj)
    # freshness of what the systems hand to the solvers
    for name in MOTORS:
        for ld in ("PolynomialStaticLoad", "ConstantSpeedLoad", "ExternalSpeedLoad"):
            cons = "%s(%s) with %s" % (MOTORS[name]["system"], name, ld)
            it = ck.interp()
            with ck.guard("fresh-derivative", cons):
                kw = {}
                if ld == "ExternalSpeedLoad":
                    kw = dict(speed_profile=Native("profile", lambda it, a, k: tm.fn("w", it.num(a[0] if a else k["t"]))), tau=1e-4)
                load = it.call(ck.cls(it, ld), [], kw)
                rg, par, lims = build(it, name, load=load)
                ys = [arr([S("%s%d" % (n, j)) for j in range(rg.ode_dim)]) for n in "xyz"]
                us = [volt_arg(name, [S("%s%d" % (n, j)) for j in range(4)][: len(MOTORS[name]["u"])]) for n in "uvw"]
                for what, fun in (("derivative", rg.f), ("Jacobian", rg.jac)):
                    if fun is None:
                        continue
                    kept = []
                    for n, (y, u) in enumerate(zip(ys, us)):
                        y_before, u_before = norm(y), norm(u)
                        r = it.call(fun, [S("t%d" % n), y, u], {})
                        kept.append((r, norm(r, it), n))
                        ck.eq("fresh-derivative", "%s %s %d arguments" % (cons, what, n + 1), [norm(y), norm(u)], [y_before, u_before], it=it)
                    for r, w, n in kept:
                        ck.eq("fresh-derivative", "%s %s %d" % (cons, what, n + 1), r, w, it=it)
    ck.min_decided = 400
