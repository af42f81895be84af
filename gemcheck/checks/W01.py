"""The reward function as a term: documented blend, weights, defaults and range."""
from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m, box

N = len(NAMES)


def as_weights(w, referenced):
    if w is None:
        used = [n for n in NAMES if n in referenced] or NAMES
        return [1.0 / len(used) if n in used else 0.0 for n in NAMES]
    if isinstance(w, dict):
        return [w.get(n, 0.0) for n in NAMES]
    return list(w)


def as_power(p):
    if isinstance(p, dict):
        return [p.get(n, 0) for n in NAMES]
    if isinstance(p, (list, tuple)):
        return list(p)
    return [p] * N


def total(xs):
    r = 0.0
    for x in xs:
        r = tm.add(r, x)
    return r


def referenced(ck, rg, names):
    it = rg.it
    g = rg.generator
    g.attrs["_reference_names"] = list(names)
    g.attrs["_referenced_states"] = arr([n in names for n in NAMES])
    return g


def build(ck, rg, names, **kw):
    it = rg.it
    rf = it.call(ck.cls(it, "WeightedSumOfErrors"), [], dict(kw))
    m(it, rf, "set_modules", rg.system, referenced(ck, rg, names), Mock("constraint monitor"))
    return rf


def expected(rg, kw, names):
    """(weights, powers, bias, range, violation reward) as documented."""
    w = as_weights(kw.get("reward_weights"), names)
    sw = total(w)
    if kw.get("normed_reward_weights"):
        w = [tm.div(x, sw) for x in w]
        sw = 1.0
    b = kw.get("bias", 0.0)
    if isinstance(b, str):
        b = sw
    rng = (tm.add(tm.mul(-1.0, sw), b), b)
    v = kw.get("violation_reward")
    if v is None:
        v = tm.minimum(tm.div(rng[0], tm.add(1.0, tm.mul(-1.0, kw.get("gamma", 0.9)))), 0)
    return w, as_power(kw.get("reward_power", 1)), b, rng, v


def wse(s, r, length, w, n, b):
    t = b
    for i in range(N):
        if w[i] == 0.0 and not isinstance(w[i], tm.T):
            continue
        e = tm.div(tm.fn("abs", tm.add(s[i], tm.mul(-1, r[i]))), length[i])
        t = tm.add(t, tm.mul(-1, tm.mul(w[i], tm.power(e, n[i]))))
    return t


def run(ck):
    ck.rule("blend", "reward = (1-d)*(bias - sum of weight*(|state-reference|/range)^power) + d*violation reward, for all states, references and degrees")
    ck.rule("defaults", "default weights are uniform over the referenced states; the default violation reward is the discounted worst reward, never positive")
    ck.rule("announced-range", "the announced range is [-sum of weights + bias, bias]")
    ck.rule("in-range", "value-range analysis: every reward without violation is inside the announced range")
    ck.rule("pure", "evaluating a reward changes neither its arguments nor the next reward")
    ck.rule("default-env", "every environment class blends its own states and references in this way")
    W = (
        ("default weights", {}),
        ("dict", dict(reward_weights={"i": S("w_i", "pos"), "omega": S("w_omega", "pos")})),
        ("one state", dict(reward_weights={"torque": 0.7})),
        ("list", dict(reward_weights=[0.1, 0.2, 0.3, 0.25, 0.4])),
        ("array", dict(reward_weights=arr([S("wa%d" % k, "pos") for k in range(N)]))),
    )
    P = (("linear", {}), ("square", dict(reward_power=2)), ("root", dict(reward_power=0.5)), ("per state", dict(reward_power={n: 1 + k for k, n in enumerate(NAMES)})), ("list", dict(reward_power=[1, 2, 3, 1, 2])))
    B = (("no bias", {}), ("bias", dict(bias=S("bias"))), ("positive bias", dict(bias="positive")))
    V = (("default violation", {}), ("gamma", dict(gamma=S("gamma", ("range", 0.0, 0.99)))), ("violation", dict(violation_reward=S("viol"))), ("zero violation", dict(violation_reward=0.0)))
    combos = []
    for i, (wl, w) in enumerate(W):
        for nrm in (False, True):
            for j, (bl, b) in enumerate(B):
                for k, (pl, p) in enumerate(P):
                    for l, (vl, v) in enumerate(V):
                        if ck.tier == "quick" and (i + j + k + l) % 3:
                            continue
                        kw = dict(w, **p)
                        kw.update(b)
                        kw.update(v)
                        if nrm:
                            kw["normed_reward_weights"] = True
                        combos.append(("%s%s, %s, %s, %s" % (wl, " normed" if nrm else "", pl, bl, vl), kw))
    for cons, kw in combos:
        for names in (["i"], ["omega", "u"]) if "reward_weights" not in kw else (["i"],):
            c2 = "%s, references %s" % (cons, "+".join(names)) if "reward_weights" not in kw else cons
            with ck.guard("blend", c2):
                check_one(ck, c2, kw, names)
    ranges(ck)
    no_reference(ck)
    in_env(ck)
    ck.min_decided = 500


def check_one(ck, cons, kw, names):
    rg = EnvRig(ck)
    it = rg.it
    given = dict(kw)
    rf = build(ck, rg, names, **{k: (v.copy() if isinstance(v, np.ndarray) else dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in given.items()})
    w, n, b, rng, viol = expected(rg, kw, names)
    r = it.iterate(it.getattr(rf, "reward_range"))
    ck.eq("announced-range", cons, r, list(rng), it=it)
    length = [tm.add(h, tm.mul(-1, l)) for h, l in zip(rg.high, rg.low)]
    for rep in (1, 2):
        s = arr([S("s%d_%s" % (rep, x)) for x in NAMES])
        f = arr([S("f%d_%s" % (rep, x)) for x in NAMES])
        s0, f0 = list(s), list(f)
        d = S("degree%d" % rep, ("range", 0, 1))
        base = wse(s0, f0, length, w, n, b)
        want = tm.add(tm.mul(tm.add(1.0, tm.mul(-1, d)), base), tm.mul(d, viol))
        got = m(it, rf, "reward", s, f, rep, S("a"), d)
        ck.eq("blend", "%s, evaluation %d" % (cons, rep), got, want, it=it)
        ck.eq("blend", "%s, called %d" % (cons, rep), it.call(rf, [s, f, rep, S("a"), d], {}), want, it=it)
        ck.eq("blend", "%s, without violation %d" % (cons, rep), m(it, rf, "reward", s, f), base, it=it)
        ck.eq("defaults" if "violation_reward" not in kw else "blend", "%s, full violation %d" % (cons, rep), m(it, rf, "reward", s, f, violation_degree=1.0), viol, it=it)
        ck.require("pure", "%s %d" % (cons, rep), list(s) == s0 and list(f) == f0, "the state or reference passed is changed")
        m(it, rf, "reset", s, f)


def ranges(ck):
    """Intervals of the reward for states and references anywhere in their space."""
    spaces = (([-1.0] * N, [1.0] * N), ([-1.0, 0.0, -0.5, -2.0, 0.0], [1.0, 1.0, 2.0, 3.0, 0.5]))
    for lo, hi in spaces:
        for nrm in (False, True):
            for bias in (0.0, 0.3, "positive"):
                for power in (1, 2, 0.5, {n: 1 + k for k, n in enumerate(NAMES)}):
                    for wts in (None, {"i": 0.5, "omega": 2.0}, [0.1, 0.2, 0.3, 0.25, 0.4]):
                        kw = dict(normed_reward_weights=nrm, bias=bias, reward_power=power)
                        if wts is not None:
                            kw["reward_weights"] = wts
                        cons = "spaces %s %s %s" % (lo, hi, sorted(kw.items(), key=str))
                        with ck.guard("in-range", cons):
                            rg = EnvRig(ck)
                            it = rg.it
                            rg.system.attrs["_state_space"] = box(it, lo, hi)
                            rf = build(ck, rg, ["i", "u"], **kw)
                            r = [float(x) for x in norm(it.getattr(rf, "reward_range"), it)]
                            s = arr([S("s %s %s" % (a, b), ("range", a, b)) if a != b else a for a, b in zip(lo, hi)])
                            f = arr([S("f %s %s" % (a, b), ("range", a, b)) if a != b else a for a, b in zip(lo, hi)])
                            ck.within("in-range", cons, norm(m(it, rf, "reward", s, f), it), r[0], r[1], "rewards")


def no_reference(ck):
    """Without referenced states all states are weighted equally; all-zero weights are reported."""
    with ck.guard("defaults", "no referenced state"):
        check_one(ck, "no referenced state", {}, [])


def in_env(ck):
    """The environment's own reward function, evaluated on its own state vectors."""
    from .E03 import env_classes

    it = ck.interp()
    for c in env_classes(it):
        with ck.guard("default-env", c.name):
            e = it.call(c, [], {})
            rf = it.getattr(e, "reward_function")
            ps = it.getattr(e, "physical_system")
            names = list(it.iterate(it.getattr(ps, "state_names")))
            refs = list(it.iterate(it.getattr(e, "reference_names")))
            sp = it.res(it.getattr(ps, "state_space"))
            lo, hi = norm(it.getattr(sp, "low"), it), norm(it.getattr(sp, "high"), it)
            s = arr([S("%s.s_%s" % (c.name, n), ("range", float(a), float(b))) for n, a, b in zip(names, lo, hi)])
            f = arr([S("%s.f_%s" % (c.name, n), ("range", float(a), float(b))) if n in refs else 0.0 for n, a, b in zip(names, lo, hi)])
            got = norm(m(it, rf, "reward", s, f, 0, None, 0.0), it)
            r = [float(x) for x in norm(it.getattr(rf, "reward_range"), it)]
            # only the deviations of the referenced states count, each with a non-positive effect
            used = {x for x in tm.symbols(got)}
            want = {s[names.index(n)] for n in refs} | {f[names.index(n)] for n in refs}
            ck.require("default-env", c.name + " states used", used == want, "the reward depends on %s instead of %s" % (sorted(map(tm.show, used)), sorted(map(tm.show, want))))
            zero = norm(m(it, rf, "reward", s, s, 0, None, 0.0), it)
            ck.eq("default-env", c.name + " best reward", zero, r[1], it=it)
            ck.within("default-env", c.name + " range", got, r[0], r[1], "rewards")
