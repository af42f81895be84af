"""After a reset a controller behaves like a freshly made one; controllers do not influence each other."""
from .. import terms as tm
from ..check import norm
from ..corpus import *
from ..gcrig import *

BASES = ["PI", "PID", "P", "ThreePoint"]


def syms_of(v):
    out = set()
    if isinstance(v, list):
        for x in v:
            out |= syms_of(x)
    elif isinstance(v, tm.T):
        out |= tm.symbols(v)
    elif isinstance(v, Phi):
        out |= tm.symbols(v.c) | syms_of(v.a) | syms_of(v.b)
    return out


def integrators(w, ctl):
    """(path, stage) of all stages below the controller that show an integrator."""
    it = w.it
    env = ck_env(w)
    return [(path, o) for path, o in reachable(it, ctl) if not (isinstance(o.cls, Cls) and o.cls.issub(env)) and has_attr(it, o, "integrator")]


def ck_env(w):
    return w.ck.cls(w.it, "ElectricMotorEnvironment")


def run(ck):
    ck.rule("reset", "the actions after a reset equal those of a freshly made controller for the same states and references")
    ck.rule("history", "no state or reference given before the reset enters an action after it")
    ck.rule("memory", "(vacuity guard) without a reset, earlier calls do influence the action of an integrating controller")
    ck.rule("integrators", "the integrator values equal those of a freshly made controller after a reset")
    ck.rule("isolation", "using one controller leaves the actions of another one made for the same environment unchanged")
    w = GcWorld(ck)
    it = w.it
    todo = [(c, b) for c in combos() for b in BASES if not (c.act == "Finite" and c.motor in AC)]
    for c, b in todo:
        con = c.label if b == "PI" else "%s base %s" % (c.label, b)
        if c.task == "Torque" and b != "PI" and ck.tier == "quick" and c.motor not in ("permex", "pmsm"):
            continue  # the same base controllers are decided with the current task
        kw = dict(base_speed_controller=b) if c.task == "Speed" else dict(base_current_controller=b)
        with ck.guard("reset", con):
            e = w.env_of(c)
            A, B, D = (w.make(e, c, **kw) for _ in range(3))
            call = lambda o, k: it.call(it.getattr(o, "control"), [w.state(e, "s%s" % k), w.reference(e, "r%s" % k)], {})
            dirty = [norm(call(A, "dirty%d" % k), it) for k in (1, 2)]
            names = set().union(*(set(list(w.state(e, "sdirty%d" % k)) + list(w.reference(e, "rdirty%d" % k))) for k in (1, 2)))
            iso = [norm(call(B, "dirty%d" % k), it) for k in (1, 2)]
            ck.eq("isolation", con, iso, dirty, it=it)
            m(it, A, "reset")
            fresh_int = {n: norm(it.getattr(s, "integrator"), it) for n, s in integrators(w, D) if has_attr(it, s, "integrator")}
            for n, s in integrators(w, A):
                if n in fresh_int:
                    ck.eq("integrators", "%s %s" % (con, n), it.getattr(s, "integrator"), fresh_int[n], it=it)
            got = [norm(call(A, k), it) for k in (3, 4)]
            want = [norm(call(D, k), it) for k in (3, 4)]
            old = [x for x in syms_of(got) if x in names]
            ck.require("history", con, not old, "the action depends on %s" % sorted(tm.show(x) for x in old)[:4])
            ck.eq("reset", con, got, want, it=it)
            if b in ("PI", "PID") and c.act == "Cont":
                back = syms_of(norm(call(B, 3), it)) & names
                ck.require("memory", con, bool(back), "an integrating controller has no memory")
    ck.min_decided = 150


def has_attr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except AbsRaise:
        return False
