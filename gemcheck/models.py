"""Abstract interface summaries of the library integrators.

An integrator maps (right-hand side, start time, end time, start state, parameters) to an end state; the summary is an
uninterpreted function of exactly these, so equal inputs give equal results and nothing else is assumed.
"""
import numpy as np

from . import terms as tm
from .terms import T
from . import interp as I
from .values import *


def flat(it, v):
    v = it.res(v)
    if isinstance(v, np.ndarray):
        return [it.num(x) for x in v.reshape(-1)]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(it, x)]
    if isinstance(v, (T, int, float, bool)):
        return [v]
    if isinstance(v, U):
        return [v.term]
    return []


def fkey(f):
    if isinstance(f, Bound):
        return fkey(f.func)
    if isinstance(f, Func):
        return f.qualname
    if isinstance(f, Obj):
        return f.cls.name
    return repr(f)


def flow(it, f, t0, t1, y, params):
    ys = flat(it, y)
    ps = flat(it, list(params))
    return I.arr([tm.fn("flow", fkey(f), i, t0, t1, len(ys), *(ys + ps)) for i in range(len(ys))])


def register(ext):
    it = ext.it
    F = ext.fns

    def ode(it, a, k):
        f = a[0] if a else k["f"]
        jac = a[1] if len(a) > 1 else k.get("jac")
        o = ext.new("scipy.integrate.ode")
        o.label = "scipy.ode"
        o.attrs.update(f=f, jac=jac, f_params=(), jac_params=(), integrator=None, integrator_args={}, y=None, t=0.0)
        it.event("lib", "ode", [f, jac], {}, obj=o)

        def put(name, v):
            it.log_dict(o.attrs, name)
            o.attrs[name] = v

        def m(name, fn):
            def h(i, a, k):
                i.event("lib", "ode." + name, [I.snap(x) for x in a], dict(k), obj=o)
                return fn(i, a, k)

            o.attrs[name] = Native("ode." + name, h)

        def set_integrator(i, a, k):
            put("integrator", a[0] if a else k.get("name"))
            put("integrator_args", {x: y for x, y in k.items() if x != "name"})
            return o

        def set_initial_value(i, a, k):
            y = a[0] if a else k["y"]
            t = a[1] if len(a) > 1 else k.get("t", 0.0)
            y = i.res(y)
            if isinstance(y, (list, tuple)):
                y = I.arr([i.num(x) for x in y])
            put("y", y)
            put("t", t)
            return o

        def setp(nm):
            def h(i, a, k):
                put(nm, tuple(a))
                return o

            return h

        def integrate(i, a, k):
            t1 = i.num(a[0] if a else k["t"])
            if o.attrs["y"] is None:
                raise AbsRaise("TypeError: integrate before set_initial_value", i.loc())
            y = flow(i, o.attrs["f"], o.attrs["t"], t1, o.attrs["y"], o.attrs["f_params"])
            put("y", y)
            put("t", t1)
            return y

        m("set_integrator", set_integrator)
        m("set_initial_value", set_initial_value)
        m("set_f_params", setp("f_params"))
        m("set_jac_params", setp("jac_params"))
        m("integrate", integrate)
        m("successful", lambda i, a, k: True)
        return o

    def solve_ivp(it, a, k):
        names = ["fun", "t_span", "y0", "method", "t_eval", "dense_output", "events", "vectorized", "args"]
        k = dict(k)
        for n, v in zip(names, a):
            k[n] = v
        it.event("lib", "solve_ivp", [], {x: I.snap(y) for x, y in k.items()})
        t0, t1 = [it.num(x) for x in it.iterate(k["t_span"])]
        te = it.res(k.get("t_eval"))
        pts = [t1] if te is None else [it.num(x) for x in it.iterate(te)]
        args = it.res(k.get("args")) or ()
        cols = [flow(it, k["fun"], t0, t, k["y0"], it.iterate(args)) for t in pts]
        if te is None:
            cols = [flow(it, k["fun"], t0, tm.sym("t_mid"), k["y0"], it.iterate(args))] + cols
            pts = [tm.sym("t_mid")] + pts
        y = np.empty((len(cols[0]), len(cols)), dtype=object)
        for j, c in enumerate(cols):
            y[:, j] = c
        return ext.new("scipy.OdeResult", y=y, t=I.arr(pts), success=True)

    def odeint(it, a, k):
        names = ["func", "y0", "t", "args", "Dfun"]
        k = dict(k)
        for n, v in zip(names, a):
            k[n] = v
        it.event("lib", "odeint", [], {x: I.snap(y) for x, y in k.items()})
        ts = [it.num(x) for x in it.iterate(k["t"])]
        args = it.iterate(it.res(k.get("args")) or ())
        y0 = I.arr(flat(it, k["y0"]))
        rows = [y0] + [flow(it, k["func"], ts[0], t, y0, args) for t in ts[1:]]
        out = np.empty((len(rows), len(y0)), dtype=object)
        for j, r in enumerate(rows):
            out[j] = r
        return out

    for n in ("scipy.integrate.", "scipy.integrate._ode.", "scipy.integrate._ivp."):
        F[n + "ode"] = ode
        F[n + "solve_ivp"] = solve_ivp
        F[n + "odeint"] = odeint
