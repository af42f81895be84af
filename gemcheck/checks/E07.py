"""Every admissible action leads to a well-formed step: nothing is raised, all outputs have Gym's form."""
import random

import numpy as np

from .. import terms as tm
from ..check import norm
from ..corpus import *
from ..rig import S, m
from ..values import *

FATAL = {"sqrt", "arccos", "arcsin", "log", "log2", "log10", "complex"}


def may_raise(ck, rule, cons, events):
    """One obligation per possible exception: its path condition cannot be met."""
    n = 0
    for ev in events:
        if ev.kind != "raise":
            continue
        n += 1
        g = tm.and_(*[c if want else tm.not_(c) for c, want in ev.guards]) if ev.guards else True
        where = getattr(ev, "loc", "") or ""
        ck.holds(rule, "%s: %s" % (cons, ev.name), tm.not_(g) if isinstance(g, tm.T) else not g, "%s raised in %s" % (ev.name, where.split(" ")[-1]))
    if not n:
        ck.ok(rule, cons)


def length(ck, rule, cons, it, v, space, what):
    sp = it.res(space)
    try:
        shape = tuple(int(x) for x in it.iterate(it.getattr(sp, "shape")))
    except (TypeError, Unsupported):
        ck.undecided(rule, cons, "shape of the space")
        return
    v = norm(v, it)
    got = np.shape(np.array([0 if not isinstance(x, list) else len(x) for x in v], dtype=object)) if isinstance(v, list) else ()
    nested = isinstance(v, list) and any(isinstance(x, list) for x in v)
    ck.require(rule, "%s %s" % (cons, what), got == shape and not nested, "%s has shape %s%s, its space %s" % (what, got, " of lists" if nested else "", shape))


def scalar(v):
    v = v.reshape(-1)[0] if isinstance(v, np.ndarray) and v.size == 1 and v.ndim == 0 else v
    return isinstance(v, (int, float, bool, np.number, np.bool_, tm.T, Phi)) and not isinstance(v, np.ndarray)


def flag(v):
    if isinstance(v, (bool, np.bool_)):
        return True
    if isinstance(v, tm.T):
        return v.op in ("lt", "le", "eq", "not", "and") or v.dom == "bool" or (v.op == "ite" and flag(v.args[1]) and flag(v.args[2]))
    return isinstance(v, Phi) and flag(v.a) and flag(v.b)


def finite(ck, cons, values, seed, n):
    """No sampled point lies outside the domain of the square roots, logarithms and inverse functions."""
    ts = [x for x in flat(values) if isinstance(x, tm.T)]
    if not ts:
        ck.ok("defined", cons)
        return
    seen = 0
    for k in range(n):
        rng, env, memo = random.Random(1000 * seed + k), {"sample": k}, {}
        for x in ts:
            try:
                tm.evaluate(x, env, rng, memo)
                seen += 1
            except tm.Undefined as u:
                if str(u) in FATAL:
                    ck.violation("defined", cons, "%s outside its domain at %s" % (u, {tm.show(a): b for a, b in list(env.items())[:6] if isinstance(a, tm.T)}))
                    return
    if seen:
        ck.ok("defined", cons)
    else:
        ck.undecided("defined", cons, "no sample point")


def actions(it, e, thorough):
    """Symbolic actions for boxes, every switch state for the discrete spaces (one component at a time for products)."""
    sp = it.res(it.getattr(e, "action_space"))
    last = sp.extname.rsplit(".", 1)[-1]
    if last == "Discrete":
        return [("action %d" % i, i) for i in range(int(sp.attrs["n"]))]
    if last == "MultiDiscrete":
        nv = [int(x) for x in np.asarray(sp.attrs["nvec"]).ravel()]
        out = [("actions %s" % ((i,) * len(nv),), arr([i % n for n in nv])) for i in range(max(nv))]
        for j, n in enumerate(nv):
            for i in range(1, n):
                a = [0] * len(nv)
                a[j] = i
                out.append(("actions %s" % (tuple(a),), arr(a)))
        return out if thorough else out[: max(nv)] + out[max(nv) :: 2]
    lo, hi = np.asarray(sp.attrs["low"]).ravel(), np.asarray(sp.attrs["high"]).ravel()
    out = [("lower corner", arr([float(x) for x in lo])), ("upper corner", arr([float(x) for x in hi]))]
    return out + [("zero action", arr([0.0 if a <= 0.0 <= b else float(a) for a, b in zip(lo, hi)]))]


def extra(w):
    """Configurations beyond the shared corpus: dq actions and initial values of every machine, deep wrapper chains."""
    dq = lambda name: w.it.call(w.it.getattr(w.ck.cls(w.it, "DqToAbcActionProcessor"), "make"), [name], {})
    small = {"i": 0.1, "psi": 0.0, "eps": 0.3}
    val = lambda x: next(v for k, v in small.items() if x.startswith(k))
    out = []
    for mot, name in (("eesm", "EESM"), ("dfim", "DFIM"), ("pmsm", "PMSM"), ("scim", "SCIM")):
        pre = lambda w, mot=mot: [w.new("FluxObserver")] if mot in ("scim", "dfim") else []
        out.append(("dq actions " + mot, lambda w, mot=mot, name=name, pre=pre: w.env(
            cls("Cont", "Current", mot), physical_system_wrappers=pre(w) + [dq(name)])))
        out.append(("dq actions, dead time and noise " + mot, lambda w, mot=mot, name=name, pre=pre: w.env(
            cls("Cont", "Torque", mot), physical_system_wrappers=pre(w) + [w.new("DeadTimeProcessor", 3), dq(name), w.new("StateNoiseProcessor", states="all")])))
    for mot, names in MOTOR_STATES.items():
        out.append(("constant initial values " + mot, lambda w, mot=mot, names=names: w.env(
            cls("Finite", "Current", mot), motor=dict(motor_initializer=rnd({x: val(x) for x in names}, None)))))
        out.append(("initial values in intervals " + mot, lambda w, mot=mot, names=names: w.env(
            cls("Cont", "Speed", mot), motor=dict(motor_initializer=rnd({x: 0.0 for x in names}, "uniform", [[-val(x), 2 * val(x)] for x in names])))))
        out.append(("normal initial values around means " + mot, lambda w, mot=mot, names=names: w.env(
            cls("Cont", "Speed", mot), motor=dict(motor_initializer=rnd({x: 0.0 for x in names}, "normal", None, (0.01, 0.2))))))
        for act in ("Cont", "Finite"):
            out.append(("dead time of three steps %s %s" % (act, mot), lambda w, mot=mot, act=act: w.env(
                cls(act, "Torque", mot), physical_system_wrappers=[w.new("DeadTimeProcessor", 3)])))
    for rm in (True, False):
        out.append(("cos/sin, angle %s" % ("removed" if rm else "kept"), lambda w, rm=rm: w.env(
            cls("Finite", "Torque", "synrm"), physical_system_wrappers=[w.new("CosSinProcessor", angle="epsilon", remove_angle=rm)])))
    for lim in ("max", "sum"):
        out.append(("current sum " + lim, lambda w, lim=lim: w.env(
            cls("Finite", "Torque", "shunt"), physical_system_wrappers=[w.new("CurrentSumProcessor", ("i_a", "i_e"), limit=lim)])))
    for merge in ("max", "product"):
        out.append(("constrained by several constraints, " + merge, lambda w, merge=merge: w.it.call(w.envs[cls("Cont", "Torque", "pmsm")], [], dict(
            constraints=w.new("ConstraintMonitor", limit_constraints=["i_a", "omega"], additional_constraints=[
                w.new("SquaredConstraint", ("i_sq", "i_sd")), w.new("LimitConstraint", "all_states")], merge_violations=merge)))))
    out.append(("filtered states", lambda w: w.env(cls("Cont", "Current", "eesm"), state_filter=["i_sd", "i_e", "omega"])))
    out.append(("no states", lambda w: w.env(cls("Cont", "Current", "permex"), state_filter=["omega"], reference_generator=w.new("ZeroReferenceGenerator"))))
    out.append(("calculated phase currents", lambda w: w.env(cls("Finite", "Speed", "pmsm"), ode_solver=w.new("ScipySolveIvpSolver", method="RK45"), supply=w.new("RCVoltageSupply", 400.0))))
    return out


def run(ck):
    ck.rule("no-raise", "reset and step with any action of the action space raise nothing, on no path")
    ck.rule("reset-form", "reset returns ((state, reference), dict), both of the length of their space")
    ck.rule("step-form", "step returns ((state, reference), scalar reward, flag, flag, dict), both arrays of the length of their space")
    ck.rule("defined", "no output evaluates a root, logarithm or inverse function outside its domain")
    w = World(ck)
    it = w.it
    steps, samples = (2, 6) if ck.tier == "quick" else (4, 30)
    todo = [(en.label, en.make) for en in entries(w) if "bench" not in en.tags]
    todo += extra(w)
    for n in w.envs:  # with their own constraints: one step until a symbolic termination
        todo.append(("constrained " + n, lambda w, n=n: it.call(w.envs[n], [], {})))
    for label, make in todo:
        constrained = label.startswith("constrained")
        with ck.guard("no-raise", label):
            e = make(w)
            del it.events[:]
            acts = [("any action", action(it, e, "a", k)) for k in range(steps)]
            if constrained:
                acts = acts[:1]
            elif "default" in label or "interlocking" in label or "DFIM" in label:
                acts += actions(it, e, ck.tier == "thorough")
            spaces = it.iterate(it.getattr(it.res(it.getattr(e, "observation_space")), "spaces"))
            r = m(it, e, "reset", seed=S("seed", "nat"))
            form(ck, it, "reset-form", label, r, spaces)
            finite(ck, label + " reset", snapv(it, it.iterate(r)[0]), ck.seed, samples)
            for k, (name, a) in enumerate(acts):
                r = m(it, e, "step", a)
                con = "%s step %d (%s)" % (label, k + 1, name)
                form(ck, it, "step-form", con, r, spaces)
                if k < steps:
                    finite(ck, con, [snapv(it, x) for x in it.iterate(r)[:2]], ck.seed, samples)
            may_raise(ck, "no-raise", label, it.events)
            r = m(it, e, "reset")
            form(ck, it, "reset-form", label + " again", r, spaces)
            may_raise(ck, "no-raise", label + " reset", it.events)
    ck.min_decided = 4000


def form(ck, it, rule, con, r, spaces):
    r = it.res(r)
    n = 2 if rule == "reset-form" else 5
    if not isinstance(r, tuple) or len(r) != n:
        ck.violation(rule, con, "%s values instead of a tuple of %d" % (len(r) if isinstance(r, (tuple, list)) else type(r).__name__, n))
        return
    ob = it.res(r[0])
    ck.require(rule, con + " observation", isinstance(ob, tuple) and len(ob) == 2, "the observation is not a pair")
    if isinstance(ob, tuple) and len(ob) == 2:
        for v, sp, what in zip(ob, spaces, ("state", "reference")):
            length(ck, rule, con, it, v, sp, what)
    ck.require(rule, con + " info", isinstance(it.res(r[-1]), dict), "info is a %s" % type(it.res(r[-1])).__name__)
    if n == 5:
        ck.require(rule, con + " reward", scalar(it.res(r[1])), "the reward is %r" % (r[1],))
        ck.require(rule, con + " flags", flag(it.res(r[2])) and flag(it.res(r[3])), "terminated and truncated are %s" % ([norm(x, it) for x in r[2:4]],))
