"""Observers report, under each name, the value the environment has for it now."""
from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m
from ..values import AbsRaise

OBS = '''
class Own(OBSERVER):
    """A user's observer: pulls something and pushes it somewhere."""
    def __init__(self, env):
        super().__init__(env)
        self.pushed = []
    def pull(self, what, scale=1):
        return (what, scale)
    def push(self, result):
        self.pushed.append(result)

class Outer:
    """A gymnasium wrapper around an environment: knows the environment behind it, has none of its attributes."""
    def __init__(self, env):
        self._env = env
    @property
    def unwrapped(self):
        return self._env.unwrapped
'''


def classes(ck, it):
    """(module with the user's classes, class StateObserver)"""
    it.load("gym_electric_motor.observers")
    return it.load_text("gemspec.obs", OBS, OBSERVER=ck.cls(it, "Observer")), ck.cls(it, "StateObserver")


def pulled(it, o, name):
    r = it.iterate(m(it, o, "observe", name))
    return norm(r[0], it), norm(r[1], it)


def run(ck):
    ck.rule("value", "observing a state or reference name gives that name with the value of the last observation, whatever states are observed")
    ck.rule("current", "after a reset the values of the new episode are reported")
    ck.rule("names", "all observed states and all references of the environment can be observed, and creating an observer leaves the environment's names as they are")
    ck.rule("unknown", "an unknown name is rejected instead of reporting another state")
    ck.rule("own", "observing pulls once, pushes the pulled result and returns it")
    filters = (None, ["i", "omega"], ["u_sup", "torque", "omega"], ["u"])
    for wraps in (0, 1):
        for flt in filters:
            for outer in (False, True):
                cons = "%d wrappers, observing %s%s" % (wraps, flt or "all states", ", environment wrapped" if outer else "")
                with ck.guard("value", cons):
                    one(ck, cons, wraps, flt, outer)
    with ck.guard("own", "user-defined observer"):
        rg = EnvRig(ck)
        it = rg.it
        mod, _ = classes(ck, it)
        e = rg.env()
        o = it.call(mod.ns["Own"], [e], {})
        ck.require("own", "environment", it.res(it.getattr(o, "env")) is e, "the observer does not keep its environment")
        for k in (1, 2):
            x = S("what %d" % k)
            r = it.call(it.getattr(o, "observe"), [x], dict(scale=k))
            ck.eq("own", "result %d" % k, norm(r, it), [x, k], it=it)
            p = norm(it.getattr(o, "pushed"), it)
            ck.require("own", "pushed %d" % k, len(p) == k and p[-1] == norm(r, it), "pushed results: %s" % (p,))
    real(ck)
    ck.min_decided = 100


def check_all(ck, rule, cons, it, o, e, obs):
    """obs: the observation (states, references) of the last reset or step."""
    state, ref = [norm(x, it) for x in it.iterate(obs)]
    names = list(it.iterate(it.getattr(e, "state_names")))
    refs = ["%s_ref" % r for r in it.iterate(it.getattr(e, "reference_names"))]
    for n, v in list(zip(names, state)) + list(zip(refs, ref)):
        got = pulled(it, o, n)
        ck.require(rule, "%s %s name" % (cons, n), got[0] == n, "reports the name %s" % (got[0],))
        ck.eq(rule, "%s %s" % (cons, n), got[1], v, it=it)


def one(ck, cons, wraps, flt, outer):
    rg = EnvRig(ck)
    it = rg.it
    mod, cls = classes(ck, it)
    kw = {}
    if flt:
        kw["state_filter"] = list(flt)
    if wraps:
        kw["physical_system_wrappers"] = [rg.make("Wrapper", "w0")]
    e = rg.env(**kw)
    before = [list(it.iterate(it.getattr(e, "state_names"))), list(it.iterate(it.getattr(rg.system, "state_names"))), list(it.iterate(it.getattr(e, "reference_names")))]
    o = it.call(cls, [it.call(mod.ns["Outer"], [e], {}) if outer else e], {})
    second = it.call(cls, [e], {})
    after = [list(it.iterate(it.getattr(e, "state_names"))), list(it.iterate(it.getattr(rg.system, "state_names"))), list(it.iterate(it.getattr(e, "reference_names")))]
    ck.require("names", cons + " environment", before == after, "names %s become %s" % (before, after))
    want = before[0] + [r + "_ref" for r in before[2]]
    for k, x in enumerate((o, second)):
        got = list(it.iterate(it.getattr(x, "state_names")))
        ck.require("names", "%s observer %d" % (cons, k + 1), got == want, "offers %s, the environment has %s" % (got, want))
    for ep in range(2):
        obs = it.iterate(rg.reset())[0]
        check_all(ck, "current", "%s episode %d reset" % (cons, ep + 1), it, o, e, obs)
        for k in range(2):
            _, res = rg.step()
            check_all(ck, "value", "%s episode %d step %d" % (cons, ep + 1, k + 1), it, o, e, it.iterate(res)[0])
    for bad in ("i_none", "") + tuple(n for n in NAMES if flt and n not in flt):
        try:
            r = m(it, o, "observe", bad)
        except AbsRaise as x:
            ck.require("unknown", "%s name '%s'" % (cons, bad), "ValueError" in str(x), "raises %s" % (x,))
        else:
            ck.violation("unknown", "%s name '%s'" % (cons, bad), "reports %s" % (norm(r, it),))


def real(ck):
    """Observers of the shipped environments."""
    from ..corpus import World, cls as env_cls, action, subep

    w = World(ck)
    it = w.it
    cases = []
    for act, task, motor in (("Cont", "Speed", "permex"), ("Finite", "Torque", "series"), ("Cont", "Current", "pmsm"), ("Finite", "Current", "scim")):
        cases.append(("%s %s %s" % (act, task, motor), act, task, motor, None))
    for task, motor, refs in (("Current", "pmsm", ["i_sq", "i_sd"]), ("Speed", "permex", ["omega", "i", "u"]), ("Current", "eesm", ["torque", "i_sd", "i_e", "i_sq"])):
        cases.append(("%s %s references %s" % (task, motor, refs), "Cont", task, motor, refs))
    for name, act, task, motor, refs in cases:
        with ck.guard("value", name):
            kw = {}
            if refs:
                kw["reference_generator"] = w.new("MultipleReferenceGenerator", [subep(w, "WienerProcessReferenceGenerator", r) for r in refs])
            e = w.env(env_cls(act, task, motor), **kw)
            o = it.call(classes(ck, it)[1], [e], {})
            obs = it.iterate(m(it, e, "reset"))[0]
            check_all(ck, "current", name + " reset", it, o, e, obs)
            res = m(it, e, "step", action(it, e, "obs", 0, 0))
            check_all(ck, "value", name + " step", it, o, e, it.iterate(res)[0])
