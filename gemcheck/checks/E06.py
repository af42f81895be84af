"""The adaptive reference margin: automaton over notifications, value range of the generated references."""
from .. import terms as tm
from ..check import norm
from ..envstub import *
from ..interp import arr
from ..rig import S, m, box

CONFIGS = (
    ("symmetric", (-0.1, 0.1), (-1, 1), 0.25),
    ("asymmetric", (-0.05, 0.3), (-0.4, 0.9), 0.1),
    ("one sided", (0.0, 0.1), (0.0, 0.5), 0.15),
    ("above zero", (0.4, 0.6), (-0.2, 0.9), 0.1),
    ("below zero", (-0.7, -0.3), (-0.9, 0.25), 0.15),
    ("single jump", (-0.2, 0.2), (-0.3, 0.6), 5.0),
)
GENERATORS = ("WienerProcessReferenceGenerator", "LaplaceProcessReferenceGenerator")


def expected(init, mx, step, n):
    return max(init[0] - n * step, mx[0]), min(init[1] + n * step, mx[1])


def generators(ck, rg, kind):
    it = rg.it
    mk = lambda c: it.call(ck.cls(it, c), [], dict(reference_state="i", episode_lengths=3))
    if kind == "switched":
        subs = [mk(c) for c in GENERATORS] + [mk(GENERATORS[0])]
        return it.call(ck.cls(it, "SwitchedReferenceGenerator"), [list(subs)], {}), subs
    g = mk(kind)
    return g, [g]


def in_use(rg, g):
    """Range of the values the generator may produce from now on."""
    it = rg.it
    dim = len(rg.names)
    m(it, g, "reset", arr([0.0] * dim), arr([S("r0", ("range", -9, 9))] * dim))
    return [it.iterate(m(it, g, "get_reference_observation", arr([0.0] * dim)))[0] for _ in range(3)]


def run(ck):
    ck.rule("applied", "binding the callback makes every generator concerned use the initial margin")
    ck.rule("update-schedule", "the margin grows exactly at every update_freq-th step or episode notification and at no other notification")
    ck.rule("bounded", "each update moves both ends by the step size, never beyond the maximum margin")
    ck.rule("everywhere", "all sub-generators of a switched generator use the same margin, equal to the one stored")
    ck.rule("unsupported", "a generator without a margin is rejected")
    for clab, init, mx, step in CONFIGS:
        for kind in GENERATORS + ("switched",):
            for mode in ("step", "episode"):
                for freq in (1, 2, 3):
                    if ck.tier == "quick" and freq == 3 and clab != "asymmetric":
                        continue
                    cons = "%s, %s, every %d %s(s)" % (clab, kind, freq, mode)
                    with ck.guard("update-schedule", cons):
                        drive(ck, cons, init, mx, step, kind, mode, freq)
    with ck.guard("unsupported", "constant generator", must_return=False):
        rg = EnvRig(ck)
        cb = rg.it.call(ck.cls(rg.it, "RampingLimitMargin"), [], {})
        try:
            rg.env(callbacks=[cb])
            ck.violation("unsupported", "generator without margin", "accepted")
        except AbsRaise:
            ck.ok("unsupported", "generator without margin")
    ck.min_decided = 200


def drive(ck, cons, init, mx, step, kind, mode, freq):
    rg = EnvRig(ck)
    it = rg.it
    rg.system.attrs["_state_space"] = box(it, [-1.0] * 5, [1.0] * 5)
    rg.system.attrs["_lim"] = arr([4.0] * 5)
    rg.system.attrs["_nom"] = arr([3.0] * 5)
    g, subs = generators(ck, rg, kind)
    cb = it.call(ck.cls(it, "RampingLimitMargin"), [], dict(initial_limit_margin=init, maximum_limit_margin=mx, step_size=step, update_time=mode, update_freq=freq))
    rg.env(reference_generator=g, callbacks=[cb])
    n = 0
    use(ck, rg, "applied", cons, subs, expected(init, mx, step, 0))
    steps = episodes = 0
    for op in ("reset", "step", "step", "step", "reset", "reset", "step", "reset", "step", "step", "reset", "step", "step", "reset", "reset"):
        before = n
        if op == "reset":
            rg.reset()
            episodes += 1
            if mode == "episode" and episodes % freq == 0:
                n += 1
        else:
            rg.step()
            steps += 1
            if mode == "step" and steps % freq == 0:
                n += 1
        use(ck, rg, "bounded" if n > before else "update-schedule", "%s after %d episodes and %d steps" % (cons, episodes, steps), subs, expected(init, mx, step, n))


def use(ck, rg, rule, cons, subs, want):
    for k, s in enumerate(subs):
        vals = in_use(rg, s)
        rl, cn = "everywhere" if len(subs) > 1 else rule, "%s%s" % (cons, " sub-generator %d" % k if len(subs) > 1 else "")
        for v in vals[:-1]:
            ck.within(rl, cn, v, want[0], want[1], "references")
        ck.within(rl, cn, vals[-1], want[0], want[1], "references", exact=True)
