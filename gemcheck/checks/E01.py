"""Typestate of the environment: closed -> reset -> open -> (violation | exchange) -> closed."""
import itertools

import numpy as np

from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..rig import S, m

OPS = ("reset", "step", "step violating", "exchange generator", "exchange reward")


def apply(rg, op):
    """Returns (rejected, result)."""
    it = rg.it
    if op == "reset":
        return False, rg.reset()
    if op.startswith("step"):
        rg.degree["c"] = 1.0 if op.endswith("violating") else 0.0
        try:
            return False, rg.step()[1]
        except AbsRaise as e:
            return True, e
    what = op.split()[1]
    if what == "generator":
        it.setattr(rg.e, "reference_generator", rg.make("Generator", "generator", ["omega"], rg.ref_space))
    else:
        it.setattr(rg.e, "reward_function", rg.make("Reward", "reward"))
    return False, None


def build(rg):
    rg.renew()
    rg.env(constraints=(rg.make("ObjConstraint", "c"),))
    rg.take()
    return rg


def run(ck):
    ck.rule("typestate", "a step is rejected, without simulating, exactly if no episode is open: before the first reset, after a violating step, after an exchange of reference generator or reward function")
    ck.rule("termination", "step reports terminated exactly if the violation degree is at least one, for every degree; truncated is never true")
    ck.rule("exchange", "the exchanged reference generator or reward function is the one used from then on")
    depth = 4 if ck.tier == "quick" else 5
    # abstract state = all flags of the environment object; explore the automaton breadth first
    rg = EnvRig(ck)
    for seq in itertools.product(OPS, repeat=depth):
        cons = " -> ".join(seq)
        with ck.guard("typestate", cons):
            rg = build(rg)
            is_open = False
            for op in seq:
                rg.take()
                rejected, res = apply(rg, op)
                log = rg.take()
                if op.startswith("step"):
                    if rejected:
                        if is_open:
                            ck.violation("typestate", cons, "a step inside an open episode is rejected: %s" % (res,))
                            break
                        if log:
                            ck.violation("typestate", cons, "a rejected step already called %s" % [e[0] for e in log])
                            break
                    else:
                        if not is_open:
                            ck.violation("typestate", cons, "a step is accepted while no episode is open")
                            break
                        done = op.endswith("violating")
                        got = norm(rg.it.iterate(res)[2], rg.it)
                        if bool(got) != done:
                            ck.violation("termination", cons, "terminated is %s" % got)
                            break
                        is_open = not done
                elif op == "reset":
                    is_open = True
                else:
                    is_open = False
            else:
                ck.ok("typestate", cons)
    # every degree, every merge
    for lab, con in (("one constraint", 1), ("two constraints", 2), ("no constraint", 0)):
        with ck.guard("termination", lab):
            rg = EnvRig(ck)
            rg.env(constraints=tuple(rg.make("ObjConstraint", "c%d" % k) for k in range(con)))
            rg.reset()
            for n in range(1, 4):
                for k in range(con):
                    rg.degree["c%d" % k] = S("d%d_%d" % (k, n), ("range", 0, 0.99)) if n < 3 else S("d%d_%d" % (k, n), "real")
                _, res = rg.step()
                res = rg.it.iterate(res)
                d = 0.0
                for k in range(con):
                    d = tm.maximum(d, rg.degree["c%d" % k]) if k else rg.degree["c0"]
                ck.eq("termination", "%s step %d" % (lab, n), res[2], tm.le(1.0, d), it=rg.it)
                ck.require("termination", "%s step %d truncation" % (lab, n), norm(res[3], rg.it) is False or norm(res[3], rg.it) == 0, "truncated is %s" % (res[3],))
                ck.require("termination", "%s step %d result" % (lab, n), len(res) == 5, "step returns %d values" % len(res))
    # exchanged modules are used
    for what, cls, hook, calls in (
        ("reference_generator", "Generator", "generator.", ("generator.get_reference", "generator.get_reference_observation", "generator.reset")),
        ("reward_function", "Reward", "reward.", ("reward.reward", "reward.reset")),
    ):
        with ck.guard("exchange", what):
            rg = EnvRig(ck)
            rg.env()
            rg.reset()
            new = rg.make(cls, "new", ["omega"], rg.ref_space) if cls == "Generator" else rg.make(cls, "new")
            rg.it.setattr(rg.e, what, new)
            ck.require("exchange", what + " getter", rg.it.res(rg.it.getattr(rg.e, what)) is new, "the property does not return the exchanged module")
            rg.take()
            rg.reset()
            rg.step()
            log = rg.take()
            tags = {e[1] for e in log if e[0].startswith(hook)}
            ck.require("exchange", what + " in use", tags == {"new"}, "modules used after the exchange: %s" % sorted(map(str, tags)))
    ck.min_decided = 500
