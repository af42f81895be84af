"""Initial values: which state gets which configured value, for constant and random initialisation."""
import itertools

from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *

# magnitudes far below every nominal value of the default machines, pairwise different
SIZE = {"i": 1.0, "i_a": 0.8, "i_e": 0.6, "i_sd": 0.5, "i_sq": 0.4, "epsilon": 0.3, "i_salpha": 0.9, "i_sbeta": 0.7, "psi_ralpha": 0.05, "psi_rbeta": 0.04}
LIMS = {"psi_ralpha": 0.5, "psi_rbeta": 0.5}


def values(name):
    return {x: S("init_" + x, ("range", 0.2 * SIZE[x], SIZE[x])) for x in MOTORS[name]["x"]}


def orders(keys):
    keys = list(keys)
    out = [keys, keys[::-1]]
    if len(keys) > 2:
        out.append(keys[1:] + keys[:1])
        out.append(sorted(keys))
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def initial(ck, it, rule, cons, rg, want, reps=3):
    for n in range(reps):
        m(it, rg.sys, "reset")
        e = rg.kinds("set_initial")[-1]
        ck.eq(rule, "%s reset %d" % (cons, n + 1), e[1], want(n) if callable(want) else want, it=it)
        ck.eq("start-time", "%s reset %d" % (cons, n + 1), e[2], 0, it=it)
        m(it, rg.sys, "simulate", arr([S("act%d_%d" % (j, n)) for j in range(rg.nph)]))


def initlim(name):
    return dict(initial_limits=dict(LIMS)) if "psi_ralpha" in MOTORS[name]["x"] else {}


def initializer(states, **kw):
    return dict(states=states, interval=None, random_init=None, random_params=(None, None), **kw)


def wrap1(v):
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    return v


def run(ck):
    ck.rule("constant-values", "at every reset the solver starts from the configured constants, each in the state variable of its name, and from zero in the states not configured")
    ck.rule("start-time", "every episode starts at time zero")
    ck.rule("random-params", "gaussian initial values are drawn with the configured mean and deviation inside the interval, the mean defaulting to its middle")
    ck.rule("random-range", "random initial values lie in the configured interval of their state (or within nominal value times state space bounds without one)")
    ck.rule("random-own-draw", "every randomly initialised state has a draw of its own")
    ck.rule("out-of-range", "constants outside the nominal range are rejected instead of being replaced")
    ck.rule("load-speed", "a configured initial speed is the speed every episode starts with")
    for name in MOTORS:
        spec = MOTORS[name]
        xs = spec["x"]
        vals = values(name)
        sysc = "%s(%s)" % (spec["system"], name)
        combos = [list(c) for r in range(1, len(xs) + 1) for c in itertools.combinations(xs, r)]
        if ck.tier == "quick":
            combos = [c for c in combos if len(c) in (1, len(xs))] + [xs[:2]] * (len(xs) > 2)
        for sub in combos:
            for od in orders(sub):
                cons = "%s motor states {%s}" % (sysc, ", ".join(od))
                it = ck.interp()
                with ck.guard("constant-values", cons):
                    mo = make_motor(it, name, {}, motor_initializer={"states": {k: vals[k] for k in od}}, **initlim(name))
                    rg = Rig(it, name, motor_obj=mo)
                    initial(ck, it, "constant-values", cons, rg, [0.0] + [vals[x] if x in od else 0.0 for x in xs], 3 if od == sub else 2)
        it = ck.interp()
        with ck.guard("constant-values", sysc + " defaults"):
            rg = Rig(it, name, motor_obj=make_motor(it, name, {}))
            initial(ck, it, "constant-values", sysc + " defaults", rg, [0.0] * (len(xs) + 1))
        # a value outside the nominal range, on either side
        for x in xs:
            for side, v in (("above", 1e5), ("below", -1e5)):
                rejected(ck, "%s %s%s" % (sysc, x, "" if side == "above" else " below"), lambda it, x=x, v=v: Rig(it, name, motor_obj=make_motor(it, name, {}, motor_initializer={"states": {x: v}})))
        for side, v in (("above", 1e5), ("below", -1e5)):
            rejected(ck, "%s omega %s" % (sysc, side), lambda it, v=v: Rig(it, name, load=it.call(ck.cls(it, "PolynomialStaticLoad"), [], dict(load_initializer={"states": {"omega": v}}))))
        # random initialisation
        for dist in ("uniform", "gaussian", "normal"):
            for lab, od in (("interval", xs), ("interval, reversed", xs[::-1]), ("no interval", xs)):
                it = ck.interp()
                cons = "%s %s %s" % (sysc, dist, lab)
                with ck.guard("random-range", cons):
                    iv = {x: (S("lo_" + x, ("range", -0.9 * SIZE[x], -0.6 * SIZE[x])), S("hi_" + x, ("range", -0.5 * SIZE[x], SIZE[x]))) for x in xs}
                    ini = {"states": {k: 0.0 for k in od}, "random_init": dist, "random_params": (None, None)}
                    if lab != "no interval":
                        ini["interval"] = [list(iv[x]) for x in od]
                    mo = make_motor(it, name, {}, motor_initializer=ini, **initlim(name))
                    nom = dict(it.res(it.getattr(mo, "nominal_values")))
                    rg = Rig(it, name, motor_obj=mo)
                    sp = it.getattr(rg.sys, "state_space")
                    low = norm(it.getattr(sp, "low"), it)
                    names = it.iterate(it.getattr(rg.sys, "state_names"))
                    for rep in (1, 2):
                        m(it, rg.sys, "reset")
                        y = norm(rg.kinds("set_initial")[-1][1], it)
                        draws = []
                        for x, v in zip(xs, y[1:]):
                            q = "%s %s reset %d" % (cons, x, rep)
                            if lab != "no interval":
                                lo, hi = iv[x]
                                if x in names and low[names.index(x)] == 0:
                                    lo = tm.maximum(lo, 0)
                                    hi = tm.maximum(hi, 0)
                            elif x in LIMS:
                                lo, hi = -LIMS[x], LIMS[x]
                            else:
                                hi = wrap1(norm(nom[x], it))
                                lo = hi * (low[names.index(x)] if x in names else -1)
                            ck.holds("random-range", q, tm.and_(tm.le(lo - 1e-9, v), tm.le(v, hi + 1e-9)), "%s outside [%s, %s]" % (short_(v), tm.show(lo), tm.show(hi)))
                            draws.append(frozenset(t for t in tm.subterms(v) if t.op == "fn" and t.args[0] == "u01") if isinstance(v, tm.T) else frozenset())
                        ck.require("random-own-draw", "%s reset %d" % (cons, rep), all(len(d) == 1 for d in draws) and len(set(draws)) == len(draws), "draws per state: %s" % [len(d) for d in draws])
    load(ck)
    distribution(ck)
    ck.min_decided = 300


def distribution(ck):
    """Gaussian initial values: configured mean and deviation are those drawn with, the mean defaults to the middle of the interval."""
    sg = S("sigma", ("range", 0.1, 1.0))
    for name in MOTORS:
        xs = MOTORS[name]["x"]
        for what in ("motor", "load"):
            for lab, mu in (("given", S("mue", ("range", 0.05, 0.25))), ("zero", 0.0), ("zero (integer)", 0), ("default", None)):
                it = ck.interp()
                cons = "%s %s mean %s" % (MOTORS[name]["system"] + "(%s)" % name, what, lab)
                with ck.guard("random-params", cons):
                    n = len(xs) if what == "motor" else 1
                    iv = [(S("lo%d" % k, ("range", -0.3, 0.0)), S("hi%d" % k, ("range", 0.3, 0.45))) for k in range(n)]
                    ini = {"interval": [list(x) for x in iv], "random_init": "gaussian", "random_params": (mu, sg)}
                    if what == "motor":
                        ini["states"] = {x: 0.0 for x in xs}
                        rg = Rig(it, name, motor_obj=make_motor(it, name, {}, motor_initializer=ini, **initlim(name)))
                    else:
                        ini["states"] = {"omega": 0.0}
                        rg = Rig(it, name, load=it.call(ck.cls(it, "PolynomialStaticLoad"), [], dict(load_initializer=ini)))
                    sp = it.getattr(rg.sys, "state_space")
                    low = norm(it.getattr(sp, "low"), it)
                    names = [str(x) for x in it.iterate(it.getattr(rg.sys, "state_names"))]
                    del it.events[:]
                    m(it, rg.sys, "reset")
                    ev = [e for e in it.events if e.kind == "scipy_draw" and e.name == "truncnorm"]
                    if len(ev) != 1:
                        ck.undecided("random-params", cons, "%d draws of a truncated normal distribution" % len(ev))
                        continue
                    a, k = ev[0].args, ev[0].kwargs
                    loc = wrap_n(norm(k["loc"] if "loc" in k else a[2] if len(a) > 2 else 0.0, it), n)
                    scale = wrap_n(norm(k["scale"] if "scale" in k else a[3] if len(a) > 3 else 1.0, it), n)
                    for j in range(n):
                        q = xs[j] if what == "motor" else "omega"
                        lo, hi = iv[j]
                        if q in names and low[names.index(q)] == 0:
                            lo = tm.maximum(lo, 0)
                        want = mu if mu is not None else tm.mul(0.5, tm.add(lo, hi))
                        ck.eq("random-params", "%s, mean of %s" % (cons, q), loc[j], want, it=it)
                        ck.eq("random-params", "%s, deviation of %s" % (cons, q), scale[j], sg, it=it)
                        for end, x in (("lower", lo), ("upper", hi)):
                            b = wrap_n(norm(a[0 if end == "lower" else 1], it), n)[j]
                            ck.eq("random-params", "%s, %s end of %s" % (cons, end, q), tm.add(loc[j], tm.mul(scale[j], b)), x, it=it)


def rejected(ck, cons, build):
    """Building the system or its first reset raises."""
    it = ck.interp()
    try:
        m(it, build(it).sys, "reset")
        ck.violation("out-of-range", cons, "accepted")
    except AbsRaise:
        ck.ok("out-of-range", cons)
    except Unsupported as e:
        ck.undecided("out-of-range", cons, str(e))


def wrap_n(v, n):
    return list(v) * (n if len(v) == 1 else 1) if isinstance(v, list) else [v] * n


def short_(v):
    s = tm.show(v) if isinstance(v, tm.T) else str(v)
    return s[:120]


def load(ck):
    R = "load-speed"
    for name in MOTORS:
        for cname, kw in (("PolynomialStaticLoad", {}), ("ConstantSpeedLoad", {})):
            it = ck.interp()
            sysc = "%s(%s) %s" % (MOTORS[name]["system"], name, cname)
            w = S("init_omega", ("range", 1.0, 5.0))
            zero = [0.0] * len(MOTORS[name]["x"])
            with ck.guard(R, sysc):
                lo = it.call(ck.cls(it, cname), [], dict(load_initializer={"states": {"omega": w}}))
                rg = Rig(it, name, load=lo)
                if "psi_ralpha" in MOTORS[name]["x"]:
                    # flux limits shrink with speed; the configured zero flux stays inside them
                    pass
                initial(ck, it, R, sysc, rg, [w] + zero)
        for dist in ("uniform", "gaussian", "normal"):
            for lab in ("interval", "no interval"):
                it = ck.interp()
                cons = "%s(%s) PolynomialStaticLoad %s %s" % (MOTORS[name]["system"], name, dist, lab)
                with ck.guard(R, cons):
                    a, b = S("w_lo", ("range", 1, 2)), S("w_hi", ("range", 3, 4))
                    ini = {"states": {"omega": 0.0}, "interval": [[a, b]] if lab == "interval" else None, "random_init": dist, "random_params": (None, None)}
                    rg = Rig(it, name, load=it.call(ck.cls(it, "PolynomialStaticLoad"), [], dict(load_initializer=ini)))
                    names = it.iterate(it.getattr(rg.sys, "state_names"))
                    nom = norm(it.getattr(rg.sys, "nominal_state"), it)[names.index("omega")]
                    low = norm(it.getattr(it.getattr(rg.sys, "state_space"), "low"), it)[names.index("omega")]
                    lo, hi = (a, b) if lab == "interval" else (nom * low, nom)
                    seen = []
                    for rep in (1, 2, 3):
                        m(it, rg.sys, "reset")
                        v = wrap1(norm(rg.kinds("set_initial")[-1][1], it)[0])
                        ck.holds(R, "%s reset %d" % (cons, rep), tm.and_(tm.le(lo - 1e-9, v), tm.le(v, hi + 1e-9)), "initial speed outside the range")
                        ck.require(R, "%s reset %d random" % (cons, rep), isinstance(v, tm.T) and any(t.op == "fn" and t.args[0] == "u01" for t in tm.subterms(v)), "not random: %s" % short_(v))
                        ck.require(R, "%s reset %d new" % (cons, rep), v not in seen, "the same initial speed as in an earlier episode")
                        seen.append(v)
