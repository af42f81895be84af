"""Constructor arguments of the environment classes: what the user passes is what the environment consists of."""
from .. import terms as tm
from ..check import norm
from ..corpus import *
from ..interp import arr
from ..rig import S, m, motor_params
from ..values import *

USER = '''
from gym_electric_motor.physical_systems.solvers import EulerSolver
from gym_electric_motor.core import Callback, ElectricMotorVisualization
from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper

class UserSolver(EulerSolver):
    """Records the functions it is given."""
    given = None
    def set_system_equation(self, system_equation, jac=None):
        self.given = (system_equation, jac)
        super().set_system_equation(system_equation, jac)

class UserCallback(Callback):
    def __init__(self):
        super().__init__()
        self.log = []
    def set_env(self, env):
        super().set_env(env)
        self.log.append("set_env")
    def on_reset_begin(self):
        self.log.append("on_reset_begin")
    def on_step_begin(self, k, action):
        self.log.append("on_step_begin")

class UserVisualization(ElectricMotorVisualization):
    def __init__(self):
        super().__init__()
        self.log = []
    def on_reset_begin(self):
        self.log.append("on_reset_begin")
    def on_step_begin(self, k, action):
        self.log.append("on_step_begin")

class UserWrapper(PhysicalSystemWrapper):
    pass
'''

ATTR = {"supply": "supply", "converter": "converter", "motor": "electrical_motor", "load": "mechanical_load"}


def chain(it, e):
    """The physical system and everything it wraps, outermost first."""
    out = [it.res(it.getattr(e, "physical_system"))]
    inner = it.res(it.getattr(out[0], "unwrapped"))
    while out[-1] is not inner and len(out) < 9:
        out.append(it.res(it.getattr(out[-1], "physical_system")))
    return out


def component(it, e, arg):
    ps = chain(it, e)[-1]
    if arg in ATTR:
        return it.res(it.getattr(ps, ATTR[arg]))
    if arg == "ode_solver":
        return it.res(it.getattr(ps, "_ode_solver"))
    return it.res(it.getattr(e, arg))


def instances(w, name):
    """One instance per component argument, of another class or with other parameters than the default."""
    it = w.it
    fin = name.startswith("Finite")
    pre = "Finite" if fin else "Cont"
    mot = next(c for c in SHORT.values() if c in name)
    short = next(k for k, c in SHORT.items() if c == mot)
    B6, F, T, O = [w.ck.cls(it, pre + x) for x in ("B6BridgeConverter", "FourQuadrantConverter", "TwoQuadrantConverter", "OneQuadrantConverter")]
    M = w.ck.cls(it, pre + "MultiConverter")
    new = lambda c, **k: it.call(c, [], k)
    if short in ("pmsm", "synrm", "scim"):
        conv = new(B6, interlocking_time=1e-7)
    elif short == "eesm":
        conv = new(M, subconverters=[new(B6), new(T)])
    elif short == "dfim":
        conv = new(M, subconverters=[new(B6), new(B6, interlocking_time=1e-7)])
    elif short == "extex":
        conv = new(M, subconverters=[new(F), new(T)])
    else:
        conv = new(T)
    state = dict(Speed="omega", Torque="torque")
    ref = state.get(next((k for k in state if k + "Control" in name), None)) or {"permex": "i", "series": "i", "shunt": "i_a", "extex": "i_a"}.get(short, "i_sd")
    return dict(
        supply=[lambda: w.new("IdealVoltageSupply", 123.0), lambda: w.new("RCVoltageSupply", 80.0)],
        converter=[lambda: conv],
        motor=[lambda: w.new(mot)],
        load=[lambda: w.new("ConstantSpeedLoad", omega_fixed=33.0), lambda: w.new("PolynomialStaticLoad", load_parameter=dict(a=0.1, b=0.2, c=0.3, j_load=0.4))],
        ode_solver=[lambda: it.call(w.user["UserSolver"], [], {}), lambda: w.new("ScipySolveIvpSolver")],
        reference_generator=[lambda: w.new("ConstReferenceGenerator", reference_state=ref, reference_value=0.1), lambda: w.new("LaplaceProcessReferenceGenerator", reference_state=ref)],
        reward_function=[lambda: w.new("WeightedSumOfErrors", reward_weights={ref: 0.25})],
        constraints=[lambda: w.new("ConstraintMonitor", ["omega"], [])],
    ), ref


def parameters(it, e, name):
    """Per component argument: configuration dictionaries with one value replaced by a symbol, and where it must be seen."""
    out = []
    ps = chain(it, e)[-1]
    out.append(("supply", "u_nominal", lambda s: dict(u_nominal=s), lambda it, e: it.getattr(component(it, e, "supply"), "u_nominal"), "pos"))
    out.append(("converter", "interlocking_time", lambda s: dict(interlocking_time=s), None, "pos"))
    mo = component(it, e, "motor")
    pick = [k for k in sorted(motor_params(next(c for c in SHORT.values() if c in name))) if k != "p"]
    for k in pick:
        out.append(("motor", "motor_parameter " + k, lambda s, k=k: dict(motor_parameter={k: s}),
                    lambda it, e, k=k: it.res(it.getattr(component(it, e, "motor"), "motor_parameter"))[k], "pos"))
    for k in ("omega", "i", "i_a", "i_sd", "torque"):
        if k in it.res(it.getattr(mo, "limits")):
            out.append(("motor", "limit_values " + k, lambda s, k=k: dict(limit_values={k: s}),
                        lambda it, e, k=k: it.res(it.getattr(component(it, e, "motor"), "limits"))[k], "pos"))
    ld = component(it, e, "load")
    if ld.cls.name == "ConstantSpeedLoad":
        out.append(("load", "omega_fixed", lambda s: dict(omega_fixed=s), lambda it, e: it.getattr(component(it, e, "load"), "omega_fixed"), "pos"))
    else:
        for k in ("a", "b", "c", "j_load"):
            full = {x: float(it.res(it.getattr(ld, "load_parameter"))[x]) for x in ("a", "b", "c", "j_load")}
            out.append(("load", "load_parameter " + k, lambda s, k=k, full=full: dict(load_parameter=dict(full, **{k: s})),
                        lambda it, e, k=k: it.res(it.getattr(component(it, e, "load"), "load_parameter"))[k], "pos"))
    rg = component(it, e, "reference_generator")
    if "sub_generators" not in rg.cls.name and not rg.cls.name.startswith("Multiple"):
        out.append(("reference_generator", "sigma_range", lambda s: dict(sigma_range=(1e-3, s)), None, "pos"))
        out.append(("reference_generator", "episode_lengths", lambda s: dict(episode_lengths=(7, s)), None, "nat"))
    out.append(("reward_function", "bias", lambda s: dict(bias=s), None, "real"))
    out.append(("reward_function", "violation_reward", lambda s: dict(violation_reward=s), None, "real"))
    return out


def leaves(it, root):
    """Every scalar, string, class and term reachable from an object, by the path of attributes leading to it."""
    out = {}

    def walk(path, v, depth=0):
        v0 = v
        if isinstance(v, U):
            v = v.term
        if isinstance(v, np.ndarray):
            for i, x in enumerate(v.reshape(-1)):
                walk("%s[%d]" % (path, i), x, depth + 1)
            out[path + ".shape"] = v.shape
        elif isinstance(v, (list, tuple)):
            out[path + ".len"] = len(v)
            for i, x in enumerate(v):
                walk("%s[%d]" % (path, i), x, depth + 1)
        elif isinstance(v, dict):
            for k, x in v.items():
                walk("%s[%s]" % (path, k), x, depth + 1)
        elif isinstance(v, Obj):
            out[path + ".class"] = v.cls.name if v.cls is not None else v.extname
        elif isinstance(v, (Bound, Phi, Func, Native, Cls)):
            out[path] = type(v).__name__
        else:
            out[path] = v

    for path, o in reachable(it, root):
        for k, v in o.attrs.items():
            walk("%s.%s" % (path, k), v)
    return out


def contains(v, s):
    return isinstance(v, tm.T) and s in tm.symbols(v)


def changed(base, lv, s):
    """Paths where a build differs from the default one although the value there does not depend on the given symbol."""
    return [p for p in set(base) | set(lv) if (p not in base or p not in lv or differs(base[p], lv[p])) and not contains(lv.get(p), s)]


def unseeded(v):
    return "entropy" in repr(v) if not isinstance(v, (int, float, bool, type(None))) else False


def differs(a, b):
    if a is b:
        return False
    try:
        if not isinstance(a, tm.T) and not isinstance(b, tm.T) and (a == b or (a != a and b != b)):
            return False
    except Exception:
        pass
    if unseeded(a) and unseeded(b):
        return False
    if tm.is_scalar(a) and tm.is_scalar(b):
        return not _same(a, b)
    return True


def _same(a, b):
    from ..check import same

    return bool(same(a, b))


def run(ck):
    ck.rule("instance", "a component instance passed to an environment class is the component of the environment, whatever else is passed with it")
    ck.rule("parameter", "a value in a configuration dictionary reaches the component; everything that does not depend on it is as by default")
    ck.rule("tau", "the passed sampling time is the one of system, converter and simulation clock")
    ck.rule("jacobian", "the solver receives a jacobian exactly if calc_jacobian is set and motor and load have one")
    ck.rule("callbacks", "each passed callback is attached to the environment once and notified once per reset and step")
    ck.rule("visualization", "passed visualizations (one, several, or parameters of the default one) are those of the environment; none stays none")
    ck.rule("constraints", "exactly the passed constraints are monitored; an empty collection means none")
    ck.rule("wrappers", "the passed wrappers wrap the system in their order")
    ck.rule("filter", "exactly the states of the passed filter are observed, in its order")
    ck.rule("default", "arguments left out do not change with those given")
    ck.rule("rejected", "an argument of an unusable type is rejected, never replaced by nothing")
    w = World(ck)
    it = w.it
    w.user = it.load_text("gemspec.user", USER).ns
    n = [0]

    def sym(dom):
        n[0] += 1
        return S("given %s %d" % (dom, n[0]), dom)

    for name, cls_ in w.envs.items():
        def mk(**k):
            k.setdefault("visualization", ())
            return it.call(cls_, [], k)

        short = name
        try:
            default = mk()
        except (AbsRaise, Unsupported) as ex:
            ck.undecided("default", name, repr(ex))
            continue
        base = leaves(it, default)
        inst, ref = instances(w, name)
        # instances, one at a time and all together
        for arg, makers in inst.items():
            for i, mki in enumerate(makers):
                cons = "%s %s instance %d" % (short, arg, i + 1)
                with ck.guard("instance", cons):
                    o = it.res(mki())
                    e = mk(**{arg: o})
                    got = component(it, e, arg) if arg != "constraints" else it.res(it.getattr(e, "constraint_monitor"))
                    ck.require("instance", cons, got is o, "the environment has another %s: %r" % (arg, got))
                    if arg in ("supply", "reward_function", "load"):
                        for other in list(ATTR) + ["ode_solver", "reference_generator", "reward_function"]:
                            if other != arg:
                                g, d = component(it, e, other), component(it, default, other)
                                ck.require("default", "%s then %s" % (cons, other), g.cls is d.cls, "a %s instead of the default %s" % (g.cls.name, d.cls.name))
        inst, ref = instances(w, name)
        cons = "%s all instances" % short
        with ck.guard("instance", cons):
            given = {a: it.res(mks[0]()) for a, mks in inst.items()}
            e = mk(**given)
            for a, o in given.items():
                got = component(it, e, a) if a != "constraints" else it.res(it.getattr(e, "constraint_monitor"))
                ck.require("instance", "%s %s" % (cons, a), got is o, "the environment has another %s" % a)
        # parameter dictionaries
        for arg, what, mkd, acc, dom in parameters(it, default, name):
            cons = "%s %s(%s)" % (short, arg, what)
            with ck.guard("parameter", cons):
                s = sym(dom)
                e = mk(**{arg: mkd(s)})
                if acc is not None:
                    ck.eq("parameter", cons, acc(it, e), s, it=it)
                g, d = component(it, e, arg), component(it, default, arg)
                ck.require("parameter", cons + " class", g.cls is d.cls, "a %s instead of the default %s" % (g.cls.name, d.cls.name))
                lv = leaves(it, e)
                hit = [p for p, v in lv.items() if contains(v, s)]
                ck.require("parameter", cons + " used", bool(hit), "the given value appears nowhere in the environment")
                bad = changed(base, lv, s)
                ck.require("default", cons, not bad, "changes also %s" % ", ".join("%s (%r -> %r)" % (p, base.get(p), lv.get(p)) for p in sorted(bad)[:3]))
        # sampling time
        cons = "%s tau" % short
        with ck.guard("tau", cons):
            t = S("given tau", ("range", 1e-6, 1e-2))
            e = mk(tau=t)
            for lab, v in (("system", it.getattr(it.getattr(e, "physical_system"), "tau")), ("converter", it.getattr(component(it, e, "converter"), "tau")), ("clock", it.getattr(it.getattr(e, "sim"), "tau"))):
                ck.eq("tau", "%s %s" % (cons, lab), v, t, it=it)
            lv = leaves(it, e)
            bad = changed(base, lv, t)
            ck.require("default", cons, not bad, "changes also %s" % sorted(bad)[:3])
        # jacobian
        for flag in (True, False):
            for ld, has in (("default load", None), ("load without jacobian", False)):
                cons = "%s calc_jacobian=%s %s" % (short, flag, ld)
                with ck.guard("jacobian", cons):
                    k = dict(ode_solver=it.call(w.user["UserSolver"], [], {}), calc_jacobian=flag)
                    if has is False:
                        k["load"] = w.new("ExternalSpeedLoad", Native("profile", lambda it, a, k: 0.0))
                    e = mk(**k)
                    jac = it.res(it.iterate(it.getattr(k["ode_solver"], "given"))[1])
                    able = all(it.truth(it.getattr(component(it, e, c), "HAS_JACOBIAN")) is True for c in ("motor", "load"))
                    ck.require("jacobian", cons, (jac is not None) == (flag and able), "jacobian %s" % ("given" if jac is not None else "missing"))
        # callbacks and visualizations
        user = lambda c: it.call(w.user[c], [], {})
        for nc in (0, 1, 2):
            for seq in (list, tuple):
                cons = "%s %d callbacks in a %s" % (short, nc, seq.__name__)
                with ck.guard("callbacks", cons):
                    cb = [user("UserCallback") for _ in range(nc)]
                    v = [user("UserVisualization") for _ in range(nc)]
                    e = mk(callbacks=seq(cb), visualization=seq(v), constraints=())
                    m(it, e, "reset")
                    m(it, e, "step", action(it, e))
                    for x in cb:
                        ck.require("callbacks", cons, list(it.iterate(it.getattr(x, "log"))) == ["set_env", "on_reset_begin", "on_step_begin"], "notified %s" % (it.getattr(x, "log"),))
                    if not cb:
                        ck.ok("callbacks", cons)
                    got = it.iterate(it.getattr(e, "visualizations"))
                    ck.require("visualization", cons, len(got) == nc and all(it.res(x) is y for x, y in zip(got, v)), "%d visualizations in the environment" % len(got))
                    for x in v:
                        ck.require("visualization", cons + " notified", list(it.iterate(it.getattr(x, "log"))) == ["on_reset_begin", "on_step_begin"], "notified %s" % (it.getattr(x, "log"),))
        cons = "%s one visualization" % short
        with ck.guard("visualization", cons):
            v = user("UserVisualization")
            got = it.iterate(it.getattr(mk(visualization=v), "visualizations"))
            ck.require("visualization", cons, len(got) == 1 and it.res(got[0]) is v, "%d visualizations" % len(got))
        cons = "%s default visualization with parameters" % short
        with ck.guard("visualization", cons):
            default = it.call(cls_, [], {})
            e = mk(visualization=dict(update_interval=5, state_plots=["omega", "torque"]))
            got = it.iterate(it.getattr(e, "visualizations"))
            dv = it.iterate(it.getattr(default, "visualizations"))
            ck.require("visualization", cons, len(got) == 1 and it.res(got[0]).cls is it.res(dv[0]).cls and it.res(it.getattr(got[0], "update_interval")) == 5, "not the default one with the given update interval")
        # constraints
        sq = w.new("SquaredConstraint", ("omega", "torque"))
        lc = w.new("LimitConstraint", ["torque"])
        for lab, cs, objs, names in (("none", (), [], []), ("a name", ("omega",), [], ["omega"]), ("two names", ["omega", "torque"], [], ["omega", "torque"]), ("a name and objects", ("omega", sq, lc), [sq, lc], ["omega"]), ("objects", [sq], [sq], [])):
            cons = "%s constraints: %s" % (short, lab)
            with ck.guard("constraints", cons):
                e = mk(constraints=cs)
                mon = [it.res(x) for x in it.iterate(it.getattr(it.getattr(e, "constraint_monitor"), "constraints"))]
                rest = [x for x in mon if not any(x is o for o in objs)]
                ck.require("constraints", cons + " objects", all(any(x is o for x in mon) for o in objs), "a given constraint is not monitored")
                ck.require("constraints", cons + " count", (not rest and not names) or (names and len(rest) <= len(names)), "%d other constraints are monitored" % len(rest))
                # violated exactly by the named states
                if not objs:
                    ps = it.getattr(e, "physical_system")
                    sn = [str(x) for x in it.iterate(it.getattr(ps, "state_names"))]
                    x = [S("state " + q) for q in sn]
                    d = m(it, it.getattr(e, "constraint_monitor"), "check_constraints", arr(x))
                    want = tm.ite(tm.or_(*[tm.lt(1.0, tm.fn("abs", S("state " + q))) for q in names]), 1.0, 0.0) if names else 0.0
                    ck.eq("constraints", cons + " degree", d, want, it=it)
        # wrappers
        for nw in (1, 2):
            cons = "%s %d wrappers" % (short, nw)
            with ck.guard("wrappers", cons):
                ws = [user("UserWrapper") for _ in range(nw)]
                c = chain(it, mk(physical_system_wrappers=tuple(ws)))
                mine = [x for x in c if any(x is y for y in ws)]
                rest = [x.cls for x in c if not any(x is y for y in ws)]
                ck.require("wrappers", cons, len(mine) == nw and all(x is y for x, y in zip(mine, reversed(ws))), "chain %s" % [x.cls.name for x in c])
                ck.require("default", cons, rest == [x.cls for x in chain(it, default)], "chain %s" % [x.cls.name for x in c])
        # state filter
        cons = "%s state filter" % short
        with ck.guard("filter", cons):
            e = mk(state_filter=["torque", "omega"], constraints=())
            ck.eq("filter", cons, [str(x) for x in it.iterate(it.getattr(e, "state_names"))], ["torque", "omega"])
            sp = it.iterate(it.getattr(it.getattr(e, "observation_space"), "spaces"))[0]
            ck.require("filter", cons + " space", tuple(it.res(sp).attrs["low"].shape) == (2,), "state space of shape %s" % (it.res(sp).attrs["low"].shape,))
            ob = it.iterate(it.iterate(m(it, e, "reset"))[0])[0]
            ck.require("filter", cons + " reset", it.res(ob).shape == (2,), "%s states observed" % (it.res(ob).shape,))
        # unusable arguments
        for arg in list(ATTR) + ["ode_solver", "reference_generator", "reward_function", "visualization"]:
            for lab, val in (("number", 7), ("string", "DcSeriesMotor"), ("list of numbers", [1, 2])):
                cons = "%s %s given as a %s" % (short, arg, lab)
                try:
                    e = mk(**{arg: val})
                    got = component(it, e, arg) if arg != "visualization" else it.res(it.getattr(e, "visualizations"))
                    ck.violation("rejected", cons, "accepted, and the environment has %r" % (got,))
                except AbsRaise:
                    ck.ok("rejected", cons)
                except Unsupported as ex:
                    ck.undecided("rejected", cons, repr(ex))
    ck.min_decided = 4000
