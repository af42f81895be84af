"""Constraints and their merge, as functions of the whole state."""
import itertools

from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m, box


def system(it, names, high=None, lim=None):
    """Interface summary of a (normalised) physical system."""
    lim = arr(lim or [S("slim_" + n, ("range", 5, 50)) for n in names])
    hi = arr(high or [1.0] * len(names))
    return Mock("system", attrs=dict(
        limits=lim, nominal_state=lim * 0.5, state_names=list(names), state_positions={n: k for k, n in enumerate(names)},
        state_space=box(it, [-x for x in hi], list(hi))))


def subsets(names):
    for n in range(1, len(names) + 1):
        for s in itertools.combinations(names, n):
            yield list(s)


def run(ck):
    ck.rule("limit", "a limit constraint is one exactly if some observed state exceeds one in magnitude, zero otherwise, for every state vector and every set of observed names, in any order")
    ck.rule("squared", "a squared constraint is one exactly if the sum of squared normalised states exceeds one, for normalised and for physical state vectors")
    ck.rule("merge", "the total degree is the maximum, one minus the product of one minus the degrees, or the user's function of all degrees; zero without constraints")
    ck.rule("all-evaluated", "each constraint, given as name, object, function or in a monitor, is evaluated exactly once per step on the complete new state")
    ck.rule("in-env", "the violation degree used by the environment is the merge of exactly the given constraints")
    it = ck.interp()
    names = NAMES
    x = [S("x_" + n) for n in names]
    over = {n: tm.lt(1.0, tm.fn("abs", S("x_" + n))) for n in names}
    f01 = lambda c: tm.ite(c, 1.0, 0.0)
    # limit constraints
    cases = [(list(s), list(s)) for s in subsets(names)] + [(list(reversed(names)), names), ("all_states", names), (["all_states"], names), (tuple(names[1:3]), names[1:3])]
    for arg, obs in cases:
        cons = "LimitConstraint(%s)" % (arg if isinstance(arg, str) else ", ".join(arg))
        with ck.guard("limit", cons):
            c = it.call(ck.cls(it, "LimitConstraint"), [arg if isinstance(arg, str) else type(arg)(arg)], {})
            m(it, c, "set_modules", system(it, names))
            got = it.call(c, [arr(x)], {})
            want = f01(tm.or_(*[over[n] for n in obs]))
            ck.eq("limit", cons, got, want, it=it)
    with ck.guard("limit", "LimitConstraint()"):
        c = it.call(ck.cls(it, "LimitConstraint"), [], {})
        m(it, c, "set_modules", system(it, names))
        ck.eq("limit", "LimitConstraint()", it.call(c, [arr(x)], {}), f01(tm.or_(*[over[n] for n in names])), it=it)
    # squared constraints
    for s in subsets(names):
        for lab, hi in (("normalised", None), ("physical", "lim")):
            cons = "SquaredConstraint(%s) %s state" % (", ".join(s), lab)
            with ck.guard("squared", cons):
                c = it.call(ck.cls(it, "SquaredConstraint"), [], dict(states=tuple(s)))
                lim = [7.0, 11.0, 13.0, 17.0, 19.0]
                ps = system(it, names, lim if hi else None, lim)
                m(it, c, "set_modules", ps)
                got = it.call(c, [arr(x)], {})
                tot = 0.0
                for n in s:
                    v = S("x_" + n) if not hi else tm.div(S("x_" + n), lim[names.index(n)])
                    tot = tm.add(tot, tm.mul(v, v))
                ck.eq("squared", cons, got, f01(tm.lt(1.0, tot)), it=it)
    # merges
    for n in range(0, 4):
        for merge in (None, "max", "product", "user"):
            cons = "%d constraints merged by %s" % (n, merge or "default")
            rg = EnvRig(ck)
            it = rg.it
            with ck.guard("merge", cons):
                cs = [rg.make("ObjConstraint", "c%d" % k) for k in range(n)]
                d = [S("deg%d" % k, ("range", 0, 1)) for k in range(n)]
                rg.degree = {"c%d" % k: d[k] for k in range(n)}
                seen = []

                def user(it, a, k):
                    seen.append(norm(list(a), it))
                    return S("user_merge")

                kw = dict(additional_constraints=cs)
                if merge:
                    kw["merge_violations"] = Native("user_merge", user) if merge == "user" else merge
                cm = it.call(ck.cls(it, "ConstraintMonitor"), [], kw)
                m(it, cm, "set_modules", rg.system)
                got = m(it, cm, "check_constraints", arr(x))
                if n == 0:
                    want = 0.0
                elif merge in (None, "max"):
                    want = d[0]
                    for y in d[1:]:
                        want = tm.maximum(want, y)
                elif merge == "product":
                    p = 1.0
                    for y in d:
                        p = tm.mul(p, tm.add(1.0, tm.mul(-1.0, y)))
                    want = tm.add(1.0, tm.mul(-1.0, p))
                else:
                    want = S("user_merge")
                    flat = seen[0] if seen else []
                    while len(flat) == 1 and isinstance(flat[0], list):
                        flat = flat[0]
                    ck.eq("merge", cons + " arguments", flat, d, it=it)
                ck.eq("merge", cons, got, want, it=it)
    # all ways to hand constraints to an environment
    for kinds in [p for n in (0, 1, 2, 3) for p in itertools.combinations(("name", "name2", "object", "function", "squared"), n)] + [("name", "name2", "object", "function", "squared")]:
        for monitor in (False, True):
            cons = "%s%s" % ("+".join(kinds) or "none", " in a monitor" if monitor else "")
            rg = EnvRig(ck)
            it = rg.it
            with ck.guard("in-env", cons):
                lim, add, want = [], [], []
                xs = lambda n: S("xs1_%d" % NAMES.index(n))
                for k in kinds:
                    if k.startswith("name"):
                        n = "i" if k == "name" else "omega"
                        lim.append(n)
                    elif k == "object":
                        add.append(rg.make("ObjConstraint", "obj"))
                    elif k == "function":
                        add.append(it.call(rg.mod.ns["function_constraint"], ["fun"], {}))
                    else:
                        add.append(it.call(ck.cls(it, "SquaredConstraint"), [], dict(states=("torque", "u"))))
                rg.degree = dict(obj=S("deg_obj", ("range", 0, 1)), fun=S("deg_fun", ("range", 0, 1)))
                if lim:
                    want.append(f01(tm.or_(*[tm.lt(1.0, tm.fn("abs", xs(n))) for n in lim])))
                if "object" in kinds:
                    want.append(rg.degree["obj"])
                if "function" in kinds:
                    want.append(rg.degree["fun"])
                if "squared" in kinds:
                    want.append(f01(tm.lt(1.0, tm.add(tm.mul(xs("torque"), xs("torque")), tm.mul(xs("u"), xs("u"))))))
                # a normalised system: space bounds differ from the limits
                rg.system.attrs["_state_space"] = box(it, [-1.0] * 5, [1.0] * 5)
                rg.system.attrs["_lim"] = arr([7.0, 11.0, 13.0, 17.0, 19.0])
                if monitor:
                    cm = it.call(ck.cls(it, "ConstraintMonitor"), [], dict(limit_constraints=list(lim), additional_constraints=list(add)))
                    rg.env(constraints=cm, state_filter=["u_sup"])
                else:
                    rg.env(constraints=tuple(lim + add), state_filter=["u_sup"])
                rg.reset()
                rg.take()
                _, res = rg.step()
                log = rg.take()
                w = 0.0
                for k, y in enumerate(want):
                    w = tm.maximum(w, y) if k else y
                r = of(log, "reward.reward")
                ck.require("in-env", cons + " reward call", len(r) == 1, "%d reward calls" % len(r))
                if r:
                    ck.eq("in-env", cons, r[0][6], w, it=it)
                for t, k in (("obj", "object"), ("fun", "function")):
                    ev = of(log, "constraint.call", t)
                    ck.require("all-evaluated", "%s %s" % (cons, k), len(ev) == (1 if k in kinds else 0), "%s evaluated %d times in a step" % (k, len(ev)))
                    for z in ev:
                        ck.eq("all-evaluated", "%s %s state" % (cons, k), z[2], [xs(n) for n in NAMES], it=it)
    ck.min_decided = 200
