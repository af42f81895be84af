"""State wrappers: names, positions, limits, spaces and vectors stay in step; everything else is passed through."""
import itertools

import numpy as np

from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *
from ..wrapstub import WrapRig, NAMES

WRAPPERS = "gym_electric_motor.physical_system_wrappers"


class View:
    """What a wrapped system must look like: ordered names, per-name tables, per-name values of the current vector."""

    def __init__(self, rg):
        self.rg = rg
        self.names = list(rg.names)
        self.lim, self.nom, self.low, self.high = dict(rg.limits), dict(rg.nominal), dict(rg.low), dict(rg.high)
        self.ops = []  # functions(values, event) applied innermost first

    def values(self, event):
        v = dict(self.rg.state)
        for op in self.ops:
            op(v, event)
        return v


def cossin(view, angle, remove):
    if remove:
        view.names.remove(angle)
    new = ["cos(%s)" % angle, "sin(%s)" % angle]
    view.names += new
    lim = view.lim[angle]
    for n in new:
        view.lim[n] = view.nom[n] = view.high[n] = 1.0
        view.low[n] = -1.0

    def op(v, event):
        v[new[0]] = tm.fn("cos", v[angle] * lim)
        v[new[1]] = tm.fn("sin", v[angle] * lim)

    view.ops.append(op)


def csum(view, currents, limit):
    view.names.append("i_sum")
    comb = (lambda x: _max(x)) if limit == "max" else (lambda x: _sum(x))
    lims = {c: view.lim[c] for c in currents}
    view.lim["i_sum"] = comb([view.lim[c] for c in currents])
    view.nom["i_sum"] = comb([view.nom[c] for c in currents])
    view.low["i_sum"], view.high["i_sum"] = -1.0, 1.0
    own = view.lim["i_sum"]

    def op(v, event):
        v["i_sum"] = _sum([v[c] * lims[c] for c in currents]) / own

    view.ops.append(op)


def flux(view, names):
    rg = view.rg
    view.names += ["psi_abs", "psi_angle"]
    lims = dict(view.lim)
    psi = rg.par["l_m"] * lims["i_sd"]
    for n, l in (("psi_abs", psi), ("psi_angle", PI)):
        view.lim[n] = view.nom[n] = l
        view.low[n], view.high[n] = None, None
    p = rg.par
    lr = p["l_m"] + p["l_sigr"]
    est = [0.0, 0.0]

    def op(v, event):
        if event == "reset":
            est[0], est[1] = 0.0, 0.0
            v["psi_abs"], v["psi_angle"] = 0.0, 0.0
            return
        ia, ib = clark(*[v[n] * lims[n] for n in names])
        w = v["omega"] * lims["omega"] * p["p"]
        a, b = est
        # rotor equation of the squirrel cage machine in the stator frame, one step of length tau
        est[0] = a + rg.tau * (p["r_r"] * p["l_m"] / lr * ia - p["r_r"] / lr * a - w * b)
        est[1] = b + rg.tau * (p["r_r"] * p["l_m"] / lr * ib - p["r_r"] / lr * b + w * a)
        v["psi_abs"] = tm.power(est[0] * est[0] + est[1] * est[1], 0.5) / psi
        v["psi_angle"] = tm.fn("atan2", est[1], est[0]) / PI

    view.ops.append(op)


def _sum(x):
    r = 0.0
    for y in x:
        r = tm.add(r, y)
    return r


def _max(x):
    r = x[0]
    for y in x[1:]:
        r = tm.maximum(r, y)
    return r


def stacks(tier):
    """label -> list of (class, kwargs, view operation), innermost first."""
    cs = lambda a="epsilon", rem=False: ("CosSinProcessor", dict(angle=a, remove_angle=rem), lambda v: cossin(v, a, rem))
    su = lambda c=("i_sa", "i"), l="max": ("CurrentSumProcessor", dict(currents=list(c), limit=l), lambda v: csum(v, list(c), l))
    fl = lambda: ("FluxObserver", {}, lambda v: flux(v, ["i_sa", "i_sb", "i_sc"]))
    fr = lambda: ("FluxObserver", dict(current_names=("i_sb", "i_sc", "i_sa")), lambda v: flux(v, ["i_sb", "i_sc", "i_sa"]))
    no = ("PhysicalSystemWrapper", {}, lambda v: None)
    dt = ("DeadTimeProcessor", dict(steps=2), lambda v: None)
    out = {
        "plain wrapper": [no],
        "cos/sin": [cs()],
        "cos/sin without angle": [cs(rem=True)],
        "sum (max)": [su()],
        "sum (sum)": [su(l="sum")],
        "sum of three": [su(("i_sc", "i_sa", "i"), "sum")],
        "flux": [fl()],
        "flux with own current names": [fr()],
        "dead time": [dt],
        "flux, cos/sin of the flux angle": [fl(), cs("psi_angle")],
        "flux, cos/sin of the flux angle removed": [fl(), cs("psi_angle", True)],
        "cos/sin without angle, sum, flux": [cs(rem=True), su(), fl()],
        "sum, dead time, cos/sin without angle, plain": [su(l="sum"), dt, cs(rem=True), no],
        "plain, flux, sum": [no, fl(), su(("i_sb", "i"), "sum")],
    }
    if tier == "thorough":
        base = {"cs": cs(), "cr": cs(rem=True), "sm": su(), "ss": su(l="sum"), "fl": fl(), "dt": dt, "no": no}
        for r in (2, 3, 4):
            for c in itertools.permutations(base, r):
                if {"cs", "cr"} <= set(c) or {"sm", "ss"} <= set(c):
                    continue
                out["thorough " + ",".join(c)] = [base[k] for k in c]
    return out


def column(d, names):
    return [d[n] for n in names]


def tables(ck, rg, cons, w, view):
    it = rg.it
    g = lambda n: it.res(it.getattr(w, n))
    names = [str(x) for x in it.iterate(g("state_names"))]
    ck.require("tables", cons + " state_names", names == view.names, "state_names are %s, expected %s" % (names, view.names))
    pos = {str(k): int(v) for k, v in g("state_positions").items()}
    ck.require("tables", cons + " state_positions", pos == {n: i for i, n in enumerate(view.names)}, "%s" % pos)
    ck.eq("tables", cons + " limits", g("limits"), column(view.lim, view.names), it=it)
    ck.eq("tables", cons + " nominal_state", g("nominal_state"), column(view.nom, view.names), it=it)
    sp = g("state_space")
    for end, want in (("low", view.low), ("high", view.high)):
        got = norm(it.getattr(sp, end), it)
        if not ck.require("tables", cons + " space " + end, len(got) == len(view.names), "%d bounds for %d states" % (len(got), len(view.names))):
            continue
        for n, x in zip(view.names, got):
            if want[n] is not None:
                ck.eq("tables", "%s space %s of %s" % (cons, end, n), x, want[n], it=it)
            else:
                observer_bound(ck, rg, cons, n, end, x, view)


def observer_bound(ck, rg, cons, n, end, x, view):
    """The vectors are normalised, so the bound has to be at most one."""
    sign = -1.0 if end == "low" else 1.0
    if not isinstance(x, tm.T) and abs(x) <= 1.0 and (x == sign or (x == 0.0 and n == "psi_abs" and end == "low")):
        ck.ok("flux-space", "%s %s %s" % (cons, n, end))
        return
    pinned = sign * view.lim[n]
    st = tm.compare(x, pinned)[0] if isinstance(x, tm.T) or isinstance(pinned, tm.T) else ("equal" if abs(x - pinned) < 1e-12 else "differ")
    ck.violation("flux-space", "FluxObserver" if st == "equal" else "FluxObserver %s %s of %s" % (cons, end, n), "the bound of the normalised slot %s is %s" % (n, tm.show(x) if isinstance(x, tm.T) else x))


def drive(ck, rg, cons, w, view, ops=("reset", "simulate", "simulate", "reset", "simulate", "simulate", "simulate")):
    it = rg.it
    kept = []
    for k, op in enumerate(ops):
        rg.take()
        vec = m(it, w, "reset") if op == "reset" else m(it, w, "simulate", "action%d" % k)
        calls = [e[0] for e in rg.take()]
        c = "%s %s %d" % (cons, op, k + 1)
        ck.require("pass-through", c + " calls", calls == [op], "calls of the wrapped system: %s" % calls)
        got = norm(vec, it)
        want = view.values(op)
        if ck.require("slots", c, len(got) == len(view.names), "vector of length %d for %d state names" % (len(got), len(view.names))):
            for n, x in zip(view.names, got):
                ck.eq("slots", "%s %s" % (c, n), x, want[n], it=it)
        ck.eq("inner-vector", c, it.getattr(rg.inner, "_kept"), [rg.state[n] for n in rg.names], it=it)
        kept.append((c, vec, got))
    for c, vec, got in kept:
        ck.eq("inner-vector", c + " later", vec, got, it=it)


def services(ck, rg, cons, w, chain):
    it = rg.it
    same = lambda n: it.res(it.getattr(w, n)) is it.res(it.getattr(rg.inner, n))
    for n in ("tau", "action_space", "service", "electrical_motor"):
        ck.require("pass-through", "%s %s" % (cons, n), same(n), "%s is not that of the wrapped system" % n)
    ck.eq("pass-through", cons + " k", it.getattr(w, "k"), it.getattr(rg.inner, "k"), it=it)
    ck.require("pass-through", cons + " unwrapped", it.res(it.getattr(w, "unwrapped")) is rg.inner, "unwrapped is not the innermost system")
    ck.require("pass-through", cons + " physical_system", it.res(it.getattr(w, "physical_system")) is chain[-2], "physical_system is not the system wrapped directly")
    rg.take()
    m(it, w, "close")
    calls = [e[0] for e in rg.take()]
    ck.require("pass-through", cons + " close", calls == ["close"], "closing reached the wrapped system %d times" % len(calls))


def run(ck):
    ck.rule("tables", "names, positions, limits, nominal values and state space of a wrapped system list the same states in the same order with the values that belong to their names")
    ck.rule("slots", "every slot of the vectors returned by reset() and simulate() holds what its name announces, normalised to its own limit")
    ck.rule("pass-through", "all other services are those of the wrapped system; each call reaches it exactly once")
    ck.rule("inner-vector", "the vectors kept by the wrapped system and vectors handed out earlier are not changed")
    ck.rule("inner-tables", "the wrapped system's own tables are not changed")
    ck.rule("noise", "noise drawn from the configured distribution is added exactly once per step to the selected states, independently per step and state")
    ck.rule("assigned", "spaces and noise parameters assigned to a wrapper are the ones it uses")
    ck.rule("flux-space", "the state space bounds of the observed flux fit the normalised slots")
    ck.rule("flux-model", "the observed flux is the rotor flux of the machine the observer accepts")
    ck.rule("real-systems", "the same holds around every drive system of the library")
    it0 = ck.interp("gym_electric_motor", WRAPPERS)
    for c in ("PhysicalSystemWrapper", "CosSinProcessor", "CurrentSumProcessor", "FluxObserver", "StateNoiseProcessor", "DeadTimeProcessor", "DqToAbcActionProcessor"):
        ck.cls(it0, c)
    for label, stack in stacks(ck.tier).items():
        for late in (False, True):
            if late and ck.tier == "quick" and len(stack) > 1:
                continue
            cons = label + (", bound later" if late else "")
            with ck.guard("tables", cons):
                rg = WrapRig(ck)
                it = rg.it
                view = View(rg)
                w, chain = rg.inner, [rg.inner]
                for cls, kw, op in stack:
                    w = rg.wrap(cls, inner=w, late=late, **kw)
                    op(view)
                    chain.append(w)
                tables(ck, rg, cons, w, view)
                drive(ck, rg, cons, w, view)
                services(ck, rg, cons, w, chain)
                inner = View(rg)
                for n, d in (("limits", inner.lim), ("nominal_state", inner.nom)):
                    ck.eq("inner-tables", "%s %s" % (cons, n), it.getattr(rg.inner, n), column(d, rg.names), it=it)
                ck.require("inner-tables", cons + " names", it.iterate(it.getattr(rg.inner, "state_names")) == rg.names, "the wrapped system's state names changed")
                ck.require("inner-tables", cons + " positions", it.res(it.getattr(rg.inner, "state_positions")) == {n: i for i, n in enumerate(rg.names)}, "the wrapped system's positions changed")
                sp = it.getattr(rg.inner, "state_space")
                ck.eq("inner-tables", cons + " space", it.getattr(sp, "high"), column(inner.high, rg.names), it=it)
    noise(ck)
    assigned(ck)
    doubly_fed(ck)
    real(ck)
    ck.min_decided = 1200


def noise(ck):
    for states in (["omega", "i_sb"], ["u_sup"], ["i_sq", "torque", "omega"], "all"):
        for dist, kw in (("normal", dict(loc="l", scale="s")), ("laplace", dict(loc="l", scale="s")), ("normal", {})):
            for length in (1, 3) if dist == "normal" and kw else (2,):
                cons = "%s noise on %s, %d at once%s" % (dist, "all states" if states == "all" else ", ".join(states), length, "" if kw else ", default scale")
                with ck.guard("noise", cons):
                    rg = WrapRig(ck)
                    it = rg.it
                    loc, scale = (S("noise_loc"), S("noise_scale", "pos")) if kw else (0.0, 1.0)
                    args = dict(states=list(states) if states != "all" else "all", random_dist=dist, random_length=length)
                    if kw:
                        args["random_kwargs"] = dict(loc=loc, scale=scale)
                    w = rg.wrap("StateNoiseProcessor", **args)
                    view = View(rg)
                    tables(ck, rg, cons, w, view)
                    sel = rg.names if states == "all" else states
                    seen = []
                    for k, op in enumerate(("reset", "simulate", "simulate", "simulate", "simulate", "reset", "simulate", "simulate")):
                        n0 = len(it.events)
                        vec = m(it, w, "reset") if op == "reset" else m(it, w, "simulate", "act")
                        got = norm(vec, it)
                        for n, x in zip(rg.names, got):
                            c = "%s, %s %d, %s" % (cons, op, k + 1, n)
                            if n not in sel:
                                ck.eq("noise", c, x, rg.state[n], it=it)
                                continue
                            d = [t for t in tm.subterms(tm.add(x, tm.mul(-1.0, rg.state[n]))) if t.op == "fn" and t.args[0] == "std_" + dist] if isinstance(x, tm.T) else []
                            if len(d) != 1:
                                ck.violation("noise", c, "%d draws of the %s distribution enter" % (len(d), dist))
                                continue
                            ck.eq("noise", c, x, rg.state[n] + loc + scale * d[0], it=it)
                            ck.require("noise", c + " fresh", d[0] not in seen, "the same random number is used again")
                            seen.append(d[0])
                        ck.eq("inner-vector", "%s, %s %d" % (cons, op, k + 1), it.getattr(rg.inner, "_kept"), [rg.state[n] for n in rg.names], it=it)
                    src = [e for e in it.events if e.kind in ("global_random", "scipy_draw")]
                    ck.require("noise", cons + " source", not src, "noise comes from %s" % (src[:1],))
                    services(ck, rg, cons, w, [rg.inner, w])


def assigned(ck):
    """Spaces set on a wrapper are the ones it shows; noise parameters set later are the ones drawn with."""
    for late in (False, True):
        with ck.guard("assigned", "spaces" + (", bound later" if late else "")):
            rg = WrapRig(ck)
            it = rg.it
            w = rg.wrap("PhysicalSystemWrapper", late=late)
            for n in ("action_space", "state_space"):
                new = box(it, [-2.0], [3.0])
                it.setattr(w, n, new)
                ck.require("assigned", "%s%s" % (n, ", bound later" if late else ""), it.res(it.getattr(w, n)) is new and it.res(it.getattr(rg.inner, n)) is not new, "the wrapper does not show the space assigned to it")
    with ck.guard("assigned", "random_kwargs"):
        rg = WrapRig(ck)
        it = rg.it
        w = rg.wrap("StateNoiseProcessor", states=["omega"], random_dist="normal", random_kwargs=dict(loc=0.0, scale=1.0), random_length=1)
        scale = S("later_scale", "pos")
        given = dict(loc=0.25, scale=scale)
        it.setattr(w, "random_kwargs", given)
        m(it, w, "reset")
        got = norm(m(it, w, "simulate", "act"), it)[rg.names.index("omega")]
        d = [t for t in tm.subterms(tm.add(got, tm.mul(-1.0, rg.state["omega"]))) if t.op == "fn" and t.args[0] == "std_normal"]
        if ck.require("assigned", "random_kwargs draw", len(d) == 1, "%d draws enter" % len(d)):
            ck.eq("assigned", "random_kwargs", got, rg.state["omega"] + 0.25 + scale * d[0], it=it)


def doubly_fed(ck):
    """The observer's rotor equation against the rotor equation of the machine it is given."""
    for name in ("SquirrelCageInductionMotor", "DoublyFedInductionMotor"):
        with ck.guard("flux-model", name):
            rg = WrapRig(ck, motor=name)
            it = rg.it
            try:
                w = rg.wrap("FluxObserver")
            except AbsRaise:
                ck.ok("flux-model", "FluxObserver for %s is rejected" % name)
                continue
            m(it, w, "reset")
            m(it, w, "simulate", "a0")
            st = rg.state
            x1 = norm(m(it, w, "simulate", "a1"), it)[-2:]
            dep = {s for t in x1 for s in tm.symbols(t)} if all(isinstance(t, tm.T) for t in x1) else set()
            # the rotor voltage of a doubly fed machine drives its rotor flux: without it the estimate cannot be the flux
            us = state_syms(name, "_x")
            volt = {"SquirrelCageInductionMotor": 2, "DoublyFedInductionMotor": 4}[name]
            uin = [S("uin%d" % k) for k in range(volt)]
            rotor = []
            if volt == 4:
                ode = norm(m(it, rg.motor, "electrical_ode", arr(us), volt_arg(name, uin), S("om_x")), it)
                rotor = [t for t in ode[2:4] if any(s in uin[2:] for s in tm.symbols(t))]
            ck.require("flux-model", "FluxObserver(%s)" % name, not rotor or any("u_r" in s.name for s in dep if hasattr(s, "name")), "the machine's rotor flux is driven by the rotor voltages, which the observer ignores")


def real(ck):
    """Every drive system of the library under its usual wrappers."""
    for name, spec in MOTORS.items():
        sysn = spec["system"]
        ops = [("StateNoiseProcessor", dict(states=["omega"], random_dist="normal"))]
        if sysn != "DcMotorSystem":
            ops.append(("CosSinProcessor", dict(angle="epsilon", remove_angle=True)))
            ops.append(("CosSinProcessor", dict(angle="epsilon")))
        if name == "SquirrelCageInductionMotor":
            ops.append(("FluxObserver", {}))
        ops.append(("CurrentSumProcessor", dict(currents=spec["i"][:2] if sysn != "SquirrelCageInductionMotorSystem" and sysn != "DoublyFedInductionMotorSystem" else ["i_sa", "i_sb"], limit="sum")))
        for cls, kw in ops:
            cons = "%s(%s)" % (cls, name)
            with ck.guard("real-systems", cons):
                it = ck.interp("gym_electric_motor", WRAPPERS)
                rg = Rig(it, name)
                w = it.call(ck.cls(it, cls), [], dict(kw, physical_system=rg.sys))
                names = [str(n) for n in it.iterate(it.getattr(w, "state_names"))]
                inner = [str(n) for n in it.iterate(it.getattr(rg.sys, "state_names"))]
                n = len(names)
                for attr in ("limits", "nominal_state"):
                    k = len(norm(it.getattr(w, attr), it))
                    ck.require("real-systems", "%s %s" % (cons, attr), k == n, "%d values for %d states" % (k, n))
                sp = it.getattr(w, "state_space")
                ck.require("real-systems", cons + " space", len(norm(it.getattr(sp, "low"), it)) == n == len(norm(it.getattr(sp, "high"), it)), "space of another size than the %d states" % n)
                pos = it.res(it.getattr(w, "state_positions"))
                ck.require("real-systems", cons + " positions", {str(a): b for a, b in pos.items()} == {a: i for i, a in enumerate(names)}, "%s" % pos)
                for step in ("reset", "simulate", "simulate"):
                    if step == "reset":
                        v = m(it, w, "reset")
                    else:
                        v = m(it, w, "simulate", arr([S("act%d" % i) for i in range(rg.nph)]))
                    ck.require("real-systems", "%s %s length" % (cons, step), len(norm(v, it)) == n, "vector of length %d for %d states" % (len(norm(v, it)), n))
                for s in inner:
                    if s in names:
                        a = norm(it.getattr(w, "limits"), it)[names.index(s)]
                        ck.eq("real-systems", "%s limit of %s" % (cons, s), a, norm(it.getattr(rg.sys, "limits"), it)[inner.index(s)], it=it)
