"""One state order for observation, space, names, limits and nominal values."""
import itertools

from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m, box


def selections(names, tier):
    yield None
    out = [list(p) for n in (1, 2) for p in itertools.permutations(names, n)]
    out += [list(names), list(reversed(names)), names[1:] + names[:1], names[::2], names[1::2]]
    if tier == "thorough":
        out += [list(p) for n in (3, 4) for p in itertools.permutations(names, n)]
    for s in out:
        yield s


def tables(ck, rule, cons, it, e, idx, names, lims, noms, low, high):
    g = lambda o, n: it.res(it.getattr(o, n))
    ck.require(rule, cons + " state_names", list(it.iterate(g(e, "state_names"))) == names, "state_names are %s" % (g(e, "state_names"),))
    ck.eq(rule, cons + " limits", g(e, "limits"), lims, it=it)
    ck.eq(rule, cons + " nominal_state", g(e, "nominal_state"), noms, it=it)
    sp = it.iterate(it.getattr(g(e, "observation_space"), "spaces"))
    ck.require(rule, cons + " space parts", len(sp) == 2, "%d parts" % len(sp))
    ck.eq(rule, cons + " space low", it.getattr(it.res(sp[0]), "low"), low, it=it)
    ck.eq(rule, cons + " space high", it.getattr(it.res(sp[0]), "high"), high, it=it)
    return sp


def run(ck):
    ck.rule("order", "names, limits, nominal values and observation space bounds are those of the selected states in the selected order")
    ck.rule("vector", "the observation vectors of reset and step hold the selected states in the selected order")
    ck.rule("spaces", "the observation space pairs the state space with the reference space of the generator in use, the action space is that of the outermost wrapped system")
    ck.rule("default-env", "the same for every environment class of the library with its own systems, observed in default, reversed and partial order")
    dim = len(NAMES)
    for flt in selections(NAMES, ck.tier):
        for wrap in (False, True) if flt is None or len(flt) != 2 else (False,):
            cons = "%s%s" % ("all states" if flt is None else ", ".join(flt), " wrapped" if wrap else "")
            with ck.guard("order", cons):
                rg = EnvRig(ck)
                it = rg.it
                w = rg.make("Wrapper", "w") if wrap else None
                kw = dict(physical_system_wrappers=[w]) if wrap else {}
                if flt is not None:
                    kw["state_filter"] = list(flt)
                e = rg.env(**kw)
                names = flt or NAMES
                idx = [NAMES.index(n) for n in names]
                sp = tables(ck, "order", cons, it, e, idx, names, [rg.limits[i] for i in idx], [rg.nominal[i] for i in idx], [rg.low[i] for i in idx], [rg.high[i] for i in idx])
                ck.require("spaces", cons + " reference space", it.res(sp[1]) is rg.ref_space, "the reference part is not the generator's reference space")
                ps = w or rg.system
                ck.require("spaces", cons + " action space", it.res(it.getattr(e, "action_space")) is it.res(it.getattr(ps, "action_space")), "the action space is not that of the system in use")
                ck.require("spaces", cons + " reference names", it.iterate(it.getattr(e, "reference_names")) == it.iterate(it.getattr(rg.generator, "reference_names")), "reference names differ")
                ob = it.iterate(it.iterate(rg.reset())[0])
                sh = (S("shift w"),) if wrap else ()
                ck.eq("vector", cons + " reset", ob[0], [tm.add(S("xr1_%d" % i), *sh) if sh else S("xr1_%d" % i) for i in idx], it=it)
                for k in (1, 2):
                    ob = it.iterate(it.iterate(rg.step()[1])[0])
                    ck.eq("vector", "%s step %d" % (cons, k), ob[0], [tm.add(S("xs%d_%d" % (k, i)), *sh) if sh else S("xs%d_%d" % (k, i)) for i in idx], it=it)
    # an unknown name is rejected
    with ck.guard("order", "unknown state name"):
        rg = EnvRig(ck)
        try:
            rg.env(state_filter=["omega", "no_such_state"])
            ck.violation("order", "unknown state name", "an unknown observed state is accepted")
        except AbsRaise:
            ck.ok("order", "unknown state name")
    envs(ck)
    ck.min_decided = 300


def env_classes(it):
    base = it.find_class("ElectricMotorEnvironment")
    return [c for c in it.all_classes("gym_electric_motor.envs") if c.issub(base)]


def envs(ck):
    it = ck.interp()
    classes = env_classes(it)
    ck.require("default-env", "environment classes", len(classes) >= 50, "%d environment classes found" % len(classes))
    for c in classes:
        with ck.guard("default-env", c.name):
            e0 = it.call(c, [], {})
            ps = it.getattr(e0, "physical_system")
            full = list(it.iterate(it.getattr(ps, "state_names")))
            for lab, flt in (("default", None), ("reversed", full[::-1]), ("partial", [full[-2], full[0], full[2]])):
                cons = "%s %s" % (c.name, lab)
                e = e0 if flt is None else it.call(c, [], dict(state_filter=list(flt)))
                ps = it.getattr(e, "physical_system")
                names = list(it.iterate(it.getattr(e, "state_names"))) if flt is None else flt
                idx = [full.index(n) for n in names]
                pick = lambda v: [norm(v, it)[i] for i in idx]
                space = it.res(it.getattr(ps, "state_space"))
                sp = tables(ck, "default-env", cons, it, e, idx, names, pick(it.getattr(ps, "limits")), pick(it.getattr(ps, "nominal_state")), pick(it.getattr(space, "low")), pick(it.getattr(space, "high")))
                gen = it.getattr(e, "reference_generator")
                rs = it.res(it.getattr(gen, "reference_space"))
                ck.require("default-env", cons + " reference space", it.res(sp[1]) is rs, "the reference part is not the generator's reference space")
                ck.require("default-env", cons + " action space", it.res(it.getattr(e, "action_space")) is it.res(it.getattr(ps, "action_space")), "the action space is not that of the system")
                names_r = it.iterate(it.getattr(e, "reference_names"))
                ck.require("default-env", cons + " reference width", len(names_r) == len(norm(it.getattr(rs, "low"), it)), "%d reference names for %d reference values" % (len(names_r), len(norm(it.getattr(rs, "low"), it))))
