"""Typestate of callbacks and visualizations: bound once, notified completely, closed once."""
import itertools

from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..rig import S, m


def tags_of(log, what):
    return [e[1] for e in log if e[0] == what]


def visus(rg):
    V = rg.mod.ns["Visu"]
    mk = lambda t: rg.make("Visu", t)
    return {
        "no visualization": ((), []),
        "visualization None": (None, []),
        "single object": (mk("v"), ["v"]),
        "list": ([mk("v1"), mk("v2")], ["v1", "v2"]),
        "class": ([V], ["visu class"]),
        "class and object": ((V, mk("v1")), ["visu class", "v1"]),
    }


def run(ck):
    ck.rule("bound-once", "each callback and visualization is bound to the environment exactly once, at the end of its construction, in the given order, callbacks first")
    ck.rule("notified", "each reset gives one begin and one end notification to each callback and visualization in the same fixed order, each step likewise; nobody else is notified")
    ck.rule("data", "begin notifications carry step counter and action, end notifications step counter, state, reference, reward and termination")
    ck.rule("closed", "closing notifies each callback once and closes reward function, physical system and reference generator once")
    ck.rule("rendered", "rendering reaches every visualization once and no callback")
    labels = list(visus(EnvRig(ck)))
    for ncb in (0, 1, 2, 3):
        for vl in labels:
            cons = "%d callbacks, %s" % (ncb, vl)
            with ck.guard("notified", cons):
                rg = EnvRig(ck)
                it = rg.it
                v, vt = visus(rg)[vl]
                cbs = [rg.make("RandomCb" if k == 1 else "Visu" if k == 2 else "Cb", "cb%d" % k) for k in range(ncb)]
                rg.take()
                e = rg.env(callbacks=tuple(cbs), visualization=v)
                log = rg.take()
                order = ["cb%d" % k for k in range(ncb)] + vt
                got = tags_of(log, "cb.set_env")
                ck.require("bound-once", cons, got == order, "bound: %s instead of %s" % (got, order))
                ck.require("bound-once", cons + " env", all(x[2] is e for x in of(log, "cb.set_env")), "bound to something else than the environment")
                other = [x[0] for x in log if x[0].startswith("cb.on_")]
                ck.require("bound-once", cons + " quiet construction", not other, "construction already notifies %s" % other)
                vs = [it.getattr(x, "tag") for x in it.iterate(it.getattr(e, "visualizations"))]
                ck.require("bound-once", cons + " visualizations", vs == vt, "visualizations are %s" % vs)
                # fully observed at construction end: all attributes exist when callbacks are bound
                for ep in range(2):
                    rg.reset()
                    log = rg.take()
                    for w in ("cb.on_reset_begin", "cb.on_reset_end"):
                        ck.require("notified", "%s reset %d %s" % (cons, ep, w), tags_of(log, w) == order, "%s reaches %s instead of %s" % (w, tags_of(log, w), order))
                    ck.require("notified", "%s reset %d others" % (cons, ep), not [x for x in log if x[0].startswith("cb.on_step") or x[0] == "cb.on_close"], "reset sends step or close notifications")
                    for k in range(2):
                        act, res = rg.step()
                        log = rg.take()
                        for w in ("cb.on_step_begin", "cb.on_step_end"):
                            ck.require("notified", "%s step %d.%d %s" % (cons, ep, k, w), tags_of(log, w) == order, "%s reaches %s instead of %s" % (w, tags_of(log, w), order))
                        ck.require("notified", "%s step %d.%d others" % (cons, ep, k), not [x for x in log if x[0].startswith("cb.on_reset") or x[0] == "cb.on_close"], "a step sends reset or close notifications")
                        for b in of(log, "cb.on_step_begin"):
                            ck.eq("data", "%s step %d.%d begin of %s" % (cons, ep, k, b[1]), [b[2], b[3]], [k, act], it=it)
                        r = of(log, "reward.reward")
                        for b in of(log, "cb.on_step_end"):
                            st = [S("xs%d_%d" % (rg.n["xs"], j)) for j in range(len(NAMES))]
                            rf = [S("ref%d_%d" % (rg.n["ref"], j)) for j in range(len(NAMES))]
                            ck.eq("data", "%s step %d.%d end of %s" % (cons, ep, k, b[1]), [b[2], list(b[3]), list(b[4]), b[5], b[6]], [k + 1, st, rf, S("reward%d_0" % rg.n["reward"]), False], it=it)
                m(it, e, "render")
                log = rg.take()
                ck.require("rendered", cons, tags_of(log, "visu.render") == vt and len(log) == len(vt), "rendering reaches %s" % [x[:2] for x in log])
                m(it, e, "close")
                log = rg.take()
                ck.require("closed", cons + " callbacks", tags_of(log, "cb.on_close") == order, "close reaches %s instead of %s" % (tags_of(log, "cb.on_close"), order))
                for w in ("reward.close", "system.close", "generator.close"):
                    ck.require("closed", "%s %s" % (cons, w), len(of(log, w)) == 1, "%s called %d times" % (w, len(of(log, w))))
    # a terminating step still notifies everybody, with termination
    with ck.guard("notified", "terminating step"):
        rg = EnvRig(ck)
        rg.env(callbacks=[rg.make("Cb", "a"), rg.make("Cb", "b")], constraints=[rg.make("ObjConstraint", "c")])
        rg.reset()
        rg.degree["c"] = 1.0
        rg.take()
        rg.step()
        log = rg.take()
        ck.require("notified", "terminating step", tags_of(log, "cb.on_step_end") == ["a", "b"], "end notification reaches %s" % tags_of(log, "cb.on_step_end"))
        for x in of(log, "cb.on_step_end"):
            ck.eq("data", "terminating step termination of " + x[1], x[6], True, it=rg.it)
    # notifications do not depend on the observation: with a state filter and a wrapper they still carry the whole state
    for flt in (["i", "omega"], ["u_sup"], list(reversed(NAMES))):
        con = "state filter %s" % ",".join(flt)
        with ck.guard("data", con):
            rg = EnvRig(ck)
            rg.env(callbacks=[rg.make("Cb", "a")], visualization=rg.make("Visu", "v"), state_filter=list(flt))
            for ep in range(2):
                rg.reset()
                for b in of(rg.take(), "cb.on_reset_end"):
                    ck.require("data", "%s reset %d end of %s" % (con, ep, b[1]), len(list(b[2])) == len(NAMES) == len(list(b[3])), "%d states and %d references" % (len(list(b[2])), len(list(b[3]))))
                for k in range(2):
                    rg.step()
                    for b in of(rg.take(), "cb.on_step_end"):
                        st = [S("xs%d_%d" % (rg.n["xs"], j)) for j in range(len(NAMES))]
                        rf = [S("ref%d_%d" % (rg.n["ref"], j)) for j in range(len(NAMES))]
                        ck.eq("data", "%s step %d.%d end of %s" % (con, ep, k, b[1]), [b[2], list(b[3]), list(b[4]), b[5], b[6]], [k + 1, st, rf, S("reward%d_0" % rg.n["reward"]), False], it=rg.it)
    # callbacks see a completely constructed environment
    with ck.guard("bound-once", "environment complete when bound"):
        rg = EnvRig(ck)
        it = rg.it
        seen = {}

        def set_env(it, env):
            for n in ("physical_system", "reference_generator", "reward_function", "constraint_monitor", "limits", "state_names", "nominal_state", "reference_names", "observation_space", "action_space", "state_filter", "visualizations"):
                seen[n] = it.getattr(env, n)

        cb = Mock("probe", methods=dict(set_env=set_env))
        rg.env(callbacks=[cb], visualization=[])
        ck.require("bound-once", "environment complete when bound", len(seen) == 12 and all(v is not None for v in seen.values()), "not available when callbacks are bound: %s" % [k for k, v in seen.items() if v is None])
    ck.min_decided = 300
