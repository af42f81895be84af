"""Sampling time and interlocking time inside composed converters, judged by the behaviour of every leg."""
from .. import terms as tm
from .. import convmodel as cm
from ..check import norm
from ..interp import arr
from ..rig import *
from .M04 import build
from .M05 import CONVERTERS

KINDS = ["1Q", "2Q", "4Q", "B6", ["4Q", "2Q"], ["B6", "4Q"], ["B6", "B6"], ["1Q", "2Q", "B6"]]


def changeover(kind):
    """Two actions between which every leg changes over."""
    if isinstance(kind, str):
        return {"1Q": (0, 1), "2Q": (1, 2), "4Q": (0, 3), "B6": (2, 5)}[kind]
    a, b = zip(*[changeover(k) for k in kind])
    return list(a), list(b)


def expect_finite(ck, it, rule, cons, cv, kind, til, tau):
    m(it, cv, "reset")
    rf = cm.ref(kind)
    t = S("t0", ("range", 0, 1))
    for n, a in enumerate(changeover(kind)):
        locked = rf.set_action(a, bool(not (isinstance(til, int) and til == 0)))
        times = it.iterate(m(it, cv, "set_action", list(a) if isinstance(a, list) else a, t))
        want = [t + til, t + tau] if locked else [t + tau]
        ck.eq(rule, "%s action %d times" % (cons, n + 1), times, want, it=it)
        for j, e in enumerate(want):
            i = [S("i%d_%d_%d" % (k, n, j)) for k in range(rf.n_out)]
            ck.eq(rule, "%s action %d interval %d" % (cons, n + 1, j + 1), m(it, cv, "convert", list(i), e), rf.u(i, locked and j == 0), it=it)
        t = t + tau


def standalone_cont(ck, it, kind, a, i, til, tau, t):
    out, k = [], 0
    for p in [kind] if isinstance(kind, str) else kind:
        w = 3 if p == "B6" else 1
        if p == "4Q":
            # a converter built for that sampling time from the start
            one = cm.make(ck, it, p, cont=True, tau=tau, interlocking_time=til)
            m(it, one, "set_action", arr(a[k : k + w]), t)
            out += norm(m(it, one, "convert", i[k : k + w], t + tau), it)
        else:
            out += cm.cont_u(p, a[k : k + w], i[k : k + w], til, tau)
        k += w
    return out


def expect_cont(ck, it, rule, cons, cv, kind, til, tau):
    t = S("t0", ("range", 0, 1))
    n = cm.ref(kind).n_out
    a = [S("a%d" % k) for k in range(n)]
    i = [S("i%d" % k) for k in range(n)]
    ck.eq(rule, cons + " times", it.iterate(m(it, cv, "set_action", arr(list(a)), t)), [t + tau], it=it)
    ck.eq(rule, cons, m(it, cv, "convert", list(i), t + tau), standalone_cont(ck, it, kind, a, i, til, tau, t), it=it)


def run(ck):
    ck.rule("construction", "a converter built with a sampling time and an interlocking time uses both in every leg (switching times, blanking, averaged blanking voltage)")
    ck.rule("changed-tau", "setting the sampling time of a converter changes it in every leg; the interlocking time stays")
    ck.rule("system-tau", "a drive system makes its sampling time that of its converter and all its legs, and the default configuration of every environment class does too")
    til = S("til", ("range", 2e-6, 8e-6))
    for cont in (False, True):
        fam = "continuous" if cont else "finite"
        expect = expect_cont if cont else expect_finite
        for kind in KINDS:
            cons = "%s %s" % (fam, cm.label(kind))
            it = ck.interp()
            with ck.guard("construction", cons):
                cv = cm.make(ck, it, kind, cont, tau=5e-5, interlocking_time=til)
                expect(ck, it, "construction", cons, cv, kind, til, 5e-5)
                if not isinstance(kind, str):
                    # sub-converters given as classes are built with the arguments of the composed converter
                    table = cm.CONT if cont else cm.FINITE
                    cv = it.call(ck.cls(it, "ContMultiConverter" if cont else "FiniteMultiConverter"), [], dict(subconverters=[ck.cls(it, table[k]) for k in kind], tau=5e-5, interlocking_time=til))
                    expect(ck, it, "construction", cons + " from classes", cv, kind, til, 5e-5)
            it = ck.interp()
            with ck.guard("changed-tau", cons):
                for til2, lab in ((til, " interlocked"), (0, "")):
                    cv = cm.make(ck, it, kind, cont, tau=1e-5, **(dict(interlocking_time=til2) if not (isinstance(til2, int)) else {}))
                    for tau in (2e-4, S("tau_new", ("range", 2e-5, 4e-5))):
                        it.setattr(cv, "tau", tau)
                        ck.eq("changed-tau", cons + lab + " own", it.getattr(cv, "tau"), tau, it=it)
                        expect(ck, it, "changed-tau", cons + lab + " tau=%s" % tm.show(tau), cv, kind, til2, tau)
    # drive systems
    for name, (kind, _) in CONVERTERS.items():
        for cont in (False, True):
            cons = "%s(%s) with %s %s" % (MOTORS[name]["system"], name, "continuous" if cont else "finite", cm.label(kind))
            it = ck.interp()
            with ck.guard("system-tau", cons):
                cv = cm.make(ck, it, kind, cont, tau=1e-5, interlocking_time=til)
                tau = S("tau_sys", ("range", 5e-5, 2e-4))
                build(it, name, tau=tau, converter=cv)
                (expect_cont if cont else expect_finite)(ck, it, "system-tau", cons, cv, kind, til, tau)
    # environments
    it = ck.interp()
    base = ck.cls(it, "ElectricMotorEnvironment")
    n = 0
    for c in it.all_classes("gym_electric_motor.envs"):
        if c is base or base not in c.mro or c.name == "ElectricMotorEnvironment":
            continue
        n += 1
        with ck.guard("system-tau", c.name):
            env = it.call(c, [], dict(tau=2.5e-4))
            ps = it.getattr(env, "physical_system")
            ps = it.getattr(ps, "unwrapped")
            ck.eq("system-tau", c.name + " system", it.getattr(ps, "tau"), 2.5e-4, it=it)
            cv = it.getattr(ps, "converter")
            bad = wrong_tau(it, cv, 2.5e-4, "converter", set())
            ck.require("system-tau", c.name + " converter legs", not bad, "sampling time differs in %s" % ", ".join(bad))
    ck.notes.append("%d environment classes" % n)
    ck.min_decided = 300


def wrong_tau(it, o, tau, path, seen):
    """Every object reachable from the converter that has a sampling time."""
    o = it.res(o)
    if id(o) in seen:
        return []
    seen.add(id(o))
    out = []
    if isinstance(o, Obj):
        if isinstance(o.cls, Cls) and o.cls.lookup("tau")[0] is not None:
            v = norm(it.getattr(o, "tau"), it)
            if v != tau:
                out.append(path + "=" + str(v))
        for k, v in list(o.attrs.items()):
            out += wrong_tau(it, v, tau, path + "." + k, seen)
    elif isinstance(o, (list, tuple)):
        for k, v in enumerate(o):
            out += wrong_tau(it, v, tau, "%s[%d]" % (path, k), seen)
    return out
