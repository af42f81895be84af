"""Data and call order inside reset and step of the environment."""
from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m


def vec(kind, n, dim, shifts=()):
    v = [S("%s%d_%d" % (kind, n, j)) for j in range(dim)]
    for s in shifts:
        v = [tm.add(x, S("shift " + s)) for x in v]
    return arr(v)


def run(ck):
    ck.rule("binding", "at construction generator, reward and constraints are bound to the outermost wrapped system and to each other; wrappers are applied in the given order, each on the result of the previous one")
    ck.rule("step-order", "one step: begin notification, one simulation with the given action, reference, constraints and reward on the new state, then the next reference, then end notifications")
    ck.rule("step-data", "reference, constraints, reward and callbacks get the new state, the same current reference, the new step counter, the same violation degree and the given action")
    ck.rule("observation", "the observation carries the filtered new state and the next reference; the reward returned is that of the reward function")
    ck.rule("reset-order", "one reset: begin notification, system, generator with the new initial state, reward with initial state and reference, end notification")
    ck.rule("reset-data", "generator, reward and callbacks get the new initial state and the initial reference; the observation carries the filtered initial state and the next reference")
    ck.rule("counter", "the step counter seen by begin and end notifications and by the reward counts the steps of the episode")
    dim = len(NAMES)
    filters = (None, ["i", "omega"], ["u_sup", "torque", "omega"])
    for wraps in (0, 1, 2):
        for fi, flt in enumerate(filters):
            cons = "%d wrappers, observing %s" % (wraps, flt or "all states")
            with ck.guard("step-order", cons):
                rg = EnvRig(ck)
                it = rg.it
                ws = [rg.make("Wrapper", "w%d" % k) for k in range(wraps)]
                shifts = ["w%d" % k for k in range(wraps)]
                outer = ws[-1] if ws else rg.system
                kw = dict(callbacks=[rg.make("Cb", "cb")], constraints=[rg.make("ObjConstraint", "c1"), rg.it.call(rg.mod.ns["function_constraint"], ["c2"], {})])
                if flt:
                    kw["state_filter"] = list(flt)
                if ws:
                    kw["physical_system_wrappers"] = list(ws)
                rg.env(**kw)
                log = rg.take()
                binding(ck, rg, cons, log, ws, outer)
                idx = [NAMES.index(n) for n in flt] if flt else list(range(dim))
                nref, nobs, nrew, nsim = 0, 0, 0, 0
                for ep in range(2):
                    rg.take()
                    nref, nobs = current(rg, "ref") + 1, current(rg, "obs") + 1
                    res = rg.reset()
                    log = rg.take()
                    state = vec("xr", ep + 1, dim, shifts)
                    nref, nobs = check_reset(ck, rg, "%s reset %d" % (cons, ep + 1), log, res, state, idx, nref, nobs)
                    for k in range(3 if ep == 0 else 2):
                        d = {c: S("d_%s_%d_%d" % (c, ep, k), ("range", 0, 0.9)) for c in ("c1", "c2")}
                        rg.degree = dict(d)
                        rg.take()
                        act, res = rg.step()
                        log = rg.take()
                        nsim += 1
                        state = vec("xs", nsim, dim, shifts)
                        check_step(ck, rg, "%s episode %d step %d" % (cons, ep + 1, k + 1), log, res, act, state, idx, tm.maximum(d["c1"], d["c2"]), k, wraps)
    ck.min_decided = 300


def binding(ck, rg, cons, log, ws, outer):
    g = of(log, "generator.set_modules")
    ck.require("binding", cons + " generator", len(g) == 1 and g[0][2] is outer, "generator bound %d times, to %s" % (len(g), [x[2] for x in g]))
    r = of(log, "reward.set_modules")
    cm = rg.it.res(rg.it.getattr(rg.e, "constraint_monitor"))
    ck.require("binding", cons + " reward", len(r) == 1 and r[0][2] is outer and r[0][3] is rg.generator and rg.it.res(r[0][4]) is cm, "reward function bound to %s" % (r,))
    c = of(log, "constraint.set_modules")
    ck.require("binding", cons + " constraints", len(c) == 1 and c[0][2] is outer, "constraint bound to %s" % (c,))
    if r and g:
        ck.require("binding", cons + " order", log.index(g[0]) < log.index(r[0]), "the reward function is bound before the generator knows its referenced states")
    w = of(log, "wrapper.set_physical_system")
    want = [rg.system] + ws[:-1] if ws else []
    ck.require("binding", cons + " wrappers", [x[2] for x in w] == want and [x[1] for x in w] == ["w%d" % k for k in range(len(ws))], "wrapping sequence %s" % [(x[1], x[2]) for x in w])
    ck.require("binding", cons + " system", rg.it.res(rg.it.getattr(rg.e, "physical_system")) is outer, "the environment's physical system is not the outermost wrapper")


def one(ck, rule, cons, log, what, n=1):
    ev = of(log, what)
    ck.require(rule, "%s %s" % (cons, what), len(ev) == n, "%d calls of %s instead of %d" % (len(ev), what, n))
    return ev[0] if ev else None


def ordered(ck, rule, cons, log, names):
    pos = []
    for n in names:
        p = [k for k, e in enumerate(log) if e[0] == n]
        if not p:
            return
        pos.append((n, min(p), max(p)))
    for (a, _, la), (b, fb, _) in zip(pos, pos[1:]):
        ck.require(rule, "%s %s before %s" % (cons, a, b), la < fb, "%s comes after %s" % (a, b))


def refvec(kind, n, dim):
    return vec(kind, n, dim)


def current(rg, kind):
    return rg.n.get(kind, 0)


def check_reset(ck, rg, cons, log, res, state, idx, nref, nobs):
    it = rg.it
    dim = len(rg.names)
    b = one(ck, "reset-order", cons, log, "cb.on_reset_begin")
    s = one(ck, "reset-order", cons, log, "system.reset")
    g = one(ck, "reset-order", cons, log, "generator.reset")
    r = one(ck, "reset-order", cons, log, "reward.reset")
    e = one(ck, "reset-order", cons, log, "cb.on_reset_end")
    ordered(ck, "reset-order", cons, log, ["cb.on_reset_begin", "system.reset", "generator.reset", "reward.reset"])
    ordered(ck, "reset-order", cons, log, ["generator.reset", "cb.on_reset_end"])
    ref = vec("ref", nref, dim)  # what generator.reset returned; a reference asked for afterwards is not the initial one
    obs = vec("obs", nobs, 1)
    if g:
        ck.eq("reset-data", cons + " generator state", g[2], state, it=it)
    if r:
        ck.eq("reset-data", cons + " reward state", r[2], state, it=it)
        ck.eq("reset-data", cons + " reward reference", r[3], ref, it=it)
    if e:
        ck.eq("reset-data", cons + " callback state", e[2], state, it=it)
        ck.eq("reset-data", cons + " callback reference", e[3], ref, it=it)
    res = it.iterate(res)
    o = it.iterate(res[0])
    ck.eq("reset-data", cons + " observed state", o[0], [state[i] for i in idx], it=it)
    ck.eq("reset-data", cons + " observed reference", o[1], obs, it=it)
    ck.require("reset-data", cons + " result", len(res) == 2 and isinstance(it.res(res[1]), dict), "reset returns %d values" % len(res))
    ck.require("reset-order", cons + " single observation", not of(log, "generator.get_reference_observation"), "reset consumes an additional reference")
    return nref, nobs


def check_step(ck, rg, cons, log, res, act, state, idx, degree, k, wraps):
    it = rg.it
    dim = len(rg.names)
    b = one(ck, "step-order", cons, log, "cb.on_step_begin")
    s = one(ck, "step-order", cons, log, "system.simulate")
    o = one(ck, "step-order", cons, log, "generator.get_reference_observation")
    r = one(ck, "step-order", cons, log, "reward.reward")
    e = one(ck, "step-order", cons, log, "cb.on_step_end")
    for w in range(wraps):
        ck.require("step-order", "%s wrapper %d" % (cons, w), len(of(log, "wrapper.simulate", "w%d" % w)) == 1, "wrapper w%d simulates %d times" % (w, len(of(log, "wrapper.simulate", "w%d" % w))))
    g = of(log, "generator.get_reference")
    ck.require("step-order", cons + " reference requested", len(g) >= 1, "no reference requested")
    c = of(log, "constraint.call")
    ck.require("step-order", cons + " constraints", sorted(x[1] for x in c) == ["c1", "c2"], "constraints evaluated: %s" % [x[1] for x in c])
    ordered(ck, "step-order", cons, log, ["cb.on_step_begin", "system.simulate", "generator.get_reference", "reward.reward", "cb.on_step_end"])
    ordered(ck, "step-order", cons, log, ["system.simulate", "constraint.call", "reward.reward"])
    ordered(ck, "step-order", cons, log, ["generator.get_reference", "generator.get_reference_observation"])
    for x in g:
        ck.eq("step-data", cons + " generator state", x[2], state, it=it)
    for x in c:
        ck.eq("step-data", "%s constraint %s state" % (cons, x[1]), x[2], state, it=it)
    ref = vec("ref", current(rg, "ref"), dim)
    obs = vec("obs", current(rg, "obs"), 1)
    rew = S("reward%d_0" % current(rg, "reward"))
    if s:
        ck.eq("step-data", cons + " action", s[1], act, it=it)
    if o:
        ck.eq("step-data", cons + " next reference state", o[2], state, it=it)
    if r:
        ck.eq("step-data", cons + " reward state", r[2], state, it=it)
        ck.eq("step-data", cons + " reward reference", r[3], ref, it=it)
        ck.eq("counter", cons + " reward k", r[4], k + 1, it=it)
        ck.eq("step-data", cons + " reward action", r[5], act, it=it)
        ck.eq("step-data", cons + " reward degree", r[6], degree, it=it)
    if b:
        ck.eq("counter", cons + " begin k", b[2], k, it=it)
        ck.eq("step-data", cons + " begin action", b[3], act, it=it)
    if e:
        ck.eq("counter", cons + " end k", e[2], k + 1, it=it)
        ck.eq("step-data", cons + " end state", e[3], state, it=it)
        ck.eq("step-data", cons + " end reference", e[4], ref, it=it)
        ck.eq("step-data", cons + " end reward", e[5], rew, it=it)
        ck.eq("step-data", cons + " end terminated", e[6], tm.le(1.0, degree), it=it)
    res = it.iterate(res)
    ob = it.iterate(res[0])
    ck.eq("observation", cons + " state", ob[0], [state[i] for i in idx], it=it)
    ck.eq("observation", cons + " reference", ob[1], obs, it=it)
    ck.eq("observation", cons + " reward", res[1], rew, it=it)
