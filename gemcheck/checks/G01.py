"""Every advertised controller combination is served by tables, stages and the numerical libraries."""
import copy
import importlib

import numpy as np

from .. import terms as tm
from ..check import norm
from ..corpus import *
from ..extlib import NUMPY_REMOVED
from ..gcrig import *
from ..sources import external_uses
from .E07 import may_raise

TABLES = ["psi_reader", "p_reader", "l_reader", "l_emf_reader", "tau_current_loop_reader", "r_reader", "tau_n_reader", "l_prime_reader"]
PER_CURRENT = ["psi_reader", "l_reader", "l_emf_reader", "tau_current_loop_reader", "r_reader", "tau_n_reader"]

WRAP = '''
class Wrapped:
    """A gymnasium wrapper: everything but `unwrapped` belongs to the wrapped environment."""
    def __init__(self, env):
        self.unwrapped = env
'''


def size(v):
    return len(v) if isinstance(v, list) else 1


def shape_ok(it, e, a):
    """The action has the shape of the environment's action space."""
    sp = it.res(it.getattr(e, "action_space"))
    kind = sp.extname.rsplit(".", 1)[-1]
    a = norm(a, it)
    if kind == "Box":
        n = int(np.asarray(sp.attrs["low"]).size)
        return isinstance(a, list) and len(a) == n, "%s entries, the action space has %d" % (size(a), n)
    if kind == "MultiDiscrete":
        n = int(np.asarray(sp.attrs["nvec"]).size)
        return isinstance(a, list) and len(a) == n, "%s entries, the action space has %d" % (size(a), n)
    return not isinstance(a, list) or len(a) == 0, "%s entries for a discrete action space" % size(a)


def run(ck):
    ck.rule("libraries", "every numpy/scipy attribute the controllers use exists in the installed version")
    ck.rule("tables", "every parameter table has an entry for every advertised motor that evaluates on its environment, with one value per controlled current")
    ck.rule("names", "all currents and voltages of the tables are states of the environments")
    ck.rule("make", "the controller can be made and tuned for every combination and base controller")
    ck.rule("control", "control yields an action of the right shape, directly after making the controller and after a reset")
    ck.rule("index", "positions in lookup tables stay inside the tables for all states and references")
    ck.rule("reference-order", "the k-th component of the current controller follows the k-th reference of the environment")
    ck.rule("custom-stages", "stages passed to the controllers are the ones used")
    ck.rule("base-controllers", "the base controllers named by the user work in the current and the speed stage")
    ck.rule("assigned", "every settable attribute of the controllers and their stages reads back what was assigned")
    w = GcWorld(ck)
    it = w.it
    libraries(ck)
    reader = it.modules["gem_controllers.parameter_reader"].ns if "gem_controllers.parameter_reader" in it.modules else {}
    wrap = it.load_text("gemspec.wrap", WRAP).ns["Wrapped"]
    # ------------------------------------------------------------ tables
    present = [t for t in TABLES if t in reader]
    ck.notes.append("parameter tables found: %s" % ", ".join(present))
    for mo in MOTOR_IDS:
        c = Combo("Cont", "Current", mo)
        with ck.guard("tables", c.label):
            e = w.env_of(c)
            names, refs = w.names(e)
            par = w.motor_parameter(e)
            for t in present:
                con = "%s[%s]" % (t, MOTOR_IDS[mo])
                with ck.guard("tables", con):
                    f = it.res(it.getitem(reader[t], MOTOR_IDS[mo]))
                    v = norm(it.call(f, [e], {}), it)
                    vs = v if isinstance(v, list) else [v]
                    fin = all(isinstance(x, (int, float)) and np.isfinite(x) for x in vs)
                    ck.require("tables", con, fin and (t not in PER_CURRENT or len(vs) == len(refs)), "evaluates to %s, controlled currents are %s" % (vs, refs))
            for t in ("currents", "voltages", "emf_currents"):
                if t in reader:
                    v = [str(x) for x in it.iterate(it.getitem(reader[t], MOTOR_IDS[mo]))]
                    ck.require("names", "%s[%s]" % (t, MOTOR_IDS[mo]), len(v) == len(refs) and all(x in names for x in v), "%s, states are %s" % (v, names))
    # ------------------------------------------------------------ make and control
    bases = ["PI", "PID", "P", "ThreePoint"]
    for c in combos():
        for b in bases:
            con = c.label if b == "PI" else "%s base %s" % (c.label, b)
            if b != "PI" and c.act == "Finite" and c.motor in AC:
                continue  # the combination is decided by its default base controller
            kw = dict(base_current_controller=b) if c.task == "Current" else dict(base_speed_controller=b) if c.task == "Speed" else dict(base_current_controller=b)
            ctl = None
            n_obs = len(ck.obs)
            with ck.guard("make", con):
                e = w.env_of(c)
                ctl = w.make(it.call(wrap, [e], {}), c, **kw)
            if ctl is None:
                if len(ck.obs) == n_obs:
                    ck.violation("make", con, "no controller is made")
                continue
            ck.ok("make", con)
            del it.events[:]
            with ck.guard("control", con):
                a = it.call(it.getattr(ctl, "control"), [w.state(e, "s"), w.reference(e, "r")], {})
                good, why = shape_ok(it, e, a)
                a2 = it.call(it.getattr(ctl, "control"), [w.state(e, "s2"), w.reference(e, "r2")], {})
                g2, why2 = shape_ok(it, e, a2)
                m(it, ctl, "reset")
                a3 = it.call(it.getattr(ctl, "control"), [w.state(e, "s"), w.reference(e, "r")], {})
                g3, why3 = shape_ok(it, e, a3)
                ck.require("control", con, good and g2 and g3, why if not good else why2 if not g2 else why3)
            may_raise(ck, "control", con + " exceptions", [ev for ev in it.events if ev.kind == "raise" and ev.guards])
            seen = {}
            for ev in it.events:
                if ev.kind == "symindex":
                    where = ev.loc.split(" ")[-1]
                    lo, hi = tm.interval(ev.args[0])
                    n = ev.args[1]
                    k = "%s in %s" % (con, where)
                    inside = -n <= lo and hi <= n - 1
                    if inside:
                        seen.setdefault(k, None)
                    else:
                        seen[k] = (ev.args[0], n)
            for k, bad in seen.items():
                if bad is None:
                    ck.ok("index", k)
                else:
                    ck.within("index", k, bad[0], -bad[1], bad[1] - 1, "positions in a table of %d entries" % bad[1])
    # ------------------------------------------------------------ order of references
    for mo in MOTOR_IDS:
        for b in ("P", "PI", "PID", "ThreePoint"):
            c = Combo("Cont", "Current", mo)
            con = "%s base %s" % (c.label, b)
            with ck.guard("reference-order", con):
                e = w.env_of(c)
                ctl = w.make(e, c, base_current_controller=b)
                _, _, cur = w.parts(ctl)
                names, refs = w.names(e)
                st, rf = w.state(e, "s", 1e3), w.reference(e, "r", 1e3)
                u = norm(it.call(it.getattr(cur, "current_base_controller"), [st, rf], {}), it)
                ck.require("reference-order", con + " count", len(u) == len(refs), "%d components for references %s" % (len(u), refs))
                for k, (x, q) in enumerate(zip(u, refs)):
                    used = tm.symbols(x) if isinstance(x, tm.T) else set()
                    want = {st[names.index(q)], rf[k]}
                    ck.require("reference-order", "%s %s" % (con, q), set(used) == want, "depends on %s" % sorted(tm.show(y) for y in used))
    # ------------------------------------------------------------ stages handed over by the user
    for mo in ("permex", "pmsm", "eesm"):
        c = Combo("Cont", "Torque", mo)
        with ck.guard("custom-stages", c.label):
            e = w.env_of(c)
            clip = w.new("AbsoluteClippingStage" if mo == "permex" else "SquaredClippingStage" if mo == "pmsm" else "CombinedClippingStage", "TC")
            cur = w.new("PICurrentController", e, c.eid)
            ops = it.call(it.getitem(ck_table(it), MOTOR_IDS[mo]), [], {})
            t = w.new("TorqueController", e, c.eid, current_controller=cur, torque_to_current_stage=ops, clipping_stage=clip)
            m(it, t, "tune", e, c.eid)
            m(it, t, "reset")
            same_ = [it.res(it.getattr(t, x)) is y for x, y in (("clipping_stage", clip), ("current_controller", cur), ("torque_to_current_stage", ops))]
            ck.require("custom-stages", c.label, all(same_), "clipping, current controller, operation point stage kept: %s" % same_)
            u = norm(m(it, t, "control", w.state(e, "s", 100.0), arr([S("T", "real")])), it)
            ck.require("custom-stages", c.label + " control", isinstance(u, list) and len(u) >= 1)
    for mo in ("permex", "shunt", "pmsm", "eesm", "scim"):
        c = Combo("Cont", "Speed", mo)
        for base in ("PController", "PIController", "PIDController"):
            con = "%s %s" % (c.label, base)
            with ck.guard("custom-stages", con):
                e = w.env_of(c)
                cur = w.new("PICurrentController", e, c.eid)
                ff = w.new("EMFFeedforwardInd" if mo == "scim" else "EMFFeedforwardEESM" if mo == "eesm" else "EMFFeedforward")
                b = w.new(base, "CC")
                it.setattr(cur, "current_base_controller", b)
                it.setattr(cur, "emf_feedforward", ff)
                t = w.new("TorqueController", e, c.eid, current_controller=w.new("PICurrentController", e, c.eid))
                it.setattr(t, "current_controller", cur)
                s = w.new("PISpeedController", e, c.eid)
                sb = w.new(base, "SC")
                it.setattr(s, "speed_control_stage", sb)
                it.setattr(s, "torque_controller", t)
                m(it, s, "tune", e, c.eid)
                m(it, s, "reset")
                kept = [it.res(it.getattr(o, x)) is y for o, x, y in ((cur, "current_base_controller", b), (cur, "emf_feedforward", ff), (t, "current_controller", cur), (s, "speed_control_stage", sb), (s, "torque_controller", t))]
                ck.require("custom-stages", con, all(kept), "base controller, feedforward, current controller, speed stage, torque controller kept: %s" % kept)
                u = norm(m(it, s, "control", w.state(e, "s", 100.0), arr([S("w", "real")])), it)
                ck.require("custom-stages", con + " control", isinstance(u, list) and len(u) >= 1)
    chosen(ck, w)
    assigned(ck, w)
    ck.min_decided = 400


def chosen(ck, w):
    """The base controllers named by the user are those at work in the current and in the speed stage."""
    it = w.it
    get = it.modules["gem_controllers.stages.base_controllers"].ns["get"]
    for mo in ("permex", "shunt", "pmsm", "eesm", "scim"):
        for bc in ("PI", "PID", "P", "ThreePoint"):
            for bs in ("PI", "PID", "P", "ThreePoint"):
                if ck.tier == "quick" and (mo in ("shunt", "eesm", "scim") and bc == bs):
                    continue
                for task in ("Current", "Torque", "Speed"):
                    if task != "Speed" and bs != "PI":
                        continue
                    c = Combo("Cont", task, mo)
                    con = "%s current %s speed %s" % (c.label, bc, bs)
                    with ck.guard("base-controllers", con):
                        e = w.env_of(c)
                        ctl = w.make(e, c, base_current_controller=bc, base_speed_controller=bs)
                        speed, _, cur = w.parts(ctl)
                        pairs = [("current", it.getattr(cur, "current_base_controller"), bc)]
                        if speed is not None:
                            pairs.append(("speed", it.getattr(speed, "speed_control_stage"), bs))
                        for what, stage, name in pairs:
                            want = it.res(it.call(get, [name], {}))
                            got = it.res(stage).cls
                            ck.require("base-controllers", "%s %s stage" % (con, what), got is want, "%s is at work, %s was asked for" % (got.name, want.name))


def assigned(ck, w):
    """Every settable attribute of a controller and its stages reads back what was assigned to it."""
    it = w.it
    done = set()
    todo = [(Combo("Cont", "Speed", mo), b) for mo in MOTOR_IDS for b in ("PID", "ThreePoint")] + [(Combo("Finite", "Speed", mo), "PI") for mo in DC]
    for c, b in todo:
        with ck.guard("assigned", c.label):
            e = w.env_of(c)
            ctl = w.make(e, c, base_current_controller=b, base_speed_controller=b)
            env_side = {id(o) for _, o in reachable(it, e)}
            for _, o in reachable(it, ctl):
                if id(o) in env_side or not isinstance(o.cls, Cls) or not o.cls.module or not o.cls.module.name.startswith("gem_controllers"):
                    continue
                for k in o.cls.mro:
                    if not isinstance(k, Cls):
                        continue
                    for name, p in k.ns.items():
                        if not isinstance(p, Prop) or p.fset is None or (o.cls, name) in done:
                            continue
                        done.add((o.cls, name))
                        con = "%s.%s" % (o.cls.name, name)
                        with ck.guard("assigned", con):
                            old = it.getattr(o, name)
                            new = other(it, old)
                            try:
                                it.setattr(o, name, new)
                            except AbsRaise:
                                if isinstance(new, Native):
                                    continue  # only certain functions are accepted
                                raise
                            got = it.getattr(o, name)
                            if isinstance(new, (Obj, Native)):
                                ck.require("assigned", con, it.res(got) is new, "does not read back the object assigned")
                            else:
                                ck.eq("assigned", con, got, new, it=it)
                            it.setattr(o, name, old)


def other(it, old):
    """A value of the same kind as the old one that differs from it."""
    v = it.res(old)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
        o = copy.copy(v)
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, (Obj, Native, Func, Bound)) or v is None or callable(v):
        return Native("assigned", lambda it, a, k: a[0])
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return int(v) + 1
    if isinstance(v, (tuple, list)):
        return type(v)(other(it, x) for x in v)
    x = norm(v, it)
    if isinstance(x, list):
        n = [S("assigned%d" % k, "pos") for k in range(len(x))]
        if all(isinstance(y, int) and not isinstance(y, bool) for y in x):
            n = [y + 1 for y in x]
        return arr(n)
    return S("assigned", "pos")


def ck_table(it):
    st = it.load("gem_controllers.stages") if "gem_controllers.stages" not in it.modules else it.modules["gem_controllers.stages"]
    return st.ns["torque_to_current_function"]


def libraries(ck):
    n = 0
    for where, name, node, call in external_uses("gem_controllers"):
        top = name.split(".")[0]
        if top not in ("numpy", "scipy"):
            continue
        n += 1
        parts = name.split(".")
        obj, missing = None, None
        try:
            obj = importlib.import_module(parts[0])
        except ImportError:
            ck.undecided("libraries", name, "not importable in the analysis environment")
            continue
        for k, p in enumerate(parts[1:], 1):
            if not hasattr(obj, p):
                try:
                    obj = importlib.import_module(".".join(parts[: k + 1]))
                    continue
                except ImportError:
                    missing = ".".join(parts[: k + 1])
                    break
            obj = getattr(obj, p)
        if name in NUMPY_REMOVED or (name.startswith("numpy.") and name.split(".", 1)[1] in NUMPY_REMOVED):
            missing = name
        ck.require("libraries", "%s in %s" % (name, where), missing is None, "%s does not exist in the installed version" % missing)
    ck.require("libraries", "uses found", n >= 20, "only %d library uses found" % n)
