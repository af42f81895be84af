"""Action wrappers: delayed actions and rotating-frame actions arrive exactly once, in time and at the right angle."""
from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *
from ..wrapstub import WrapRig

NEUTRAL = {"discrete": 0, "multi": [0, 0, 0], "box2": [0.0, 0.0], "box3": [0.0] * 3, "box6": [0.0] * 6}
MACHINES = {
    "PMSM": ("PermanentMagnetSynchronousMotor", "box3", "epsilon"),
    "SCIM": ("SquirrelCageInductionMotor", "box3", "psi_angle"),
    "EESM": ("ExternallyExcitedSynchronousMotor", "box4", "epsilon"),
    "DFIM": ("DoublyFedInductionMotor", "box6", "psi_angle"),
}
SYS_NAMES = ["torque", "omega", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "epsilon", "psi_abs", "psi_angle", "u_sup"]


def received(rg):
    return [e[1] for e in rg.take() if e[0] == "simulate"]


def drive(ck, rg, cons, w, n, neutral, plan, fresh):
    """plan: step counts of consecutive episodes."""
    it = rg.it
    for ep, steps in enumerate(plan):
        rg.take()
        vec = m(it, w, "reset")
        log = rg.take()
        c = "%s, episode %d" % (cons, ep + 1)
        ck.require("once", c + " reset", [e[0] for e in log] == ["reset"], "calls of the wrapped system: %s" % [e[0] for e in log])
        ck.eq("state", c + " reset", vec, [rg.state[x] for x in rg.names], it=it)
        given = list(neutral)
        for k in range(steps):
            a = fresh("%d_%d" % (ep, k))
            given.append(a)
            vec = m(it, w, "simulate", a)
            got = received(rg)
            ck.require("once", "%s step %d" % (c, k), len(got) == 1, "the wrapped system was stepped %d times" % len(got))
            if got:
                ck.eq("delay", "%s step %d" % (c, k), got[0], given[k], it=it, detail="action of the wrapped system")
            ck.eq("state", "%s step %d" % (c, k), vec, [rg.state[x] for x in rg.names], it=it)


def dead_time(ck):
    depth = 4 if ck.tier == "quick" else 7
    count = [0]
    for space in NEUTRAL:
        dim = {"discrete": 0, "multi": 3, "box2": 2, "box3": 3, "box6": 6}[space]

        def fresh(tag, dim=dim, space=space):
            return arr([S("a%s_%d_%s" % (tag, j, space)) for j in range(dim)]) if dim else S("a%s_%s" % (tag, space))

        for n in range(1, depth + 1):
            for plan in ((n + 2, n + 3), (1, n, n + 1), (n - 1 if n > 1 else 2, 0, n + 2)):
                for reset in ("default", "own"):
                    if reset == "own" and space in ("box6", "multi") and ck.tier == "quick":
                        continue
                    cons = "dead time %d, %s actions, %s reset actions, episodes of %s steps" % (n, space, reset, "/".join(map(str, plan)))
                    with ck.guard("delay", cons):
                        rg = WrapRig(ck, actions=space)
                        kw = dict(steps=n)
                        neutral = [NEUTRAL[space]] * n
                        if reset == "own":
                            own = [fresh("own%d" % j) for j in range(n)]
                            kw["reset_action"] = Native("reset_action", lambda it, a, k, own=own: list(own))
                            # the queue is filled in the order the documentation gives: first of the list is the youngest
                            neutral = list(reversed(own))
                        w = rg.wrap("DeadTimeProcessor", late=bool(count[0] % 2), **kw)
                        count[0] += 1
                        ck.require("once", cons + " dead_time", rg.it.num(rg.it.getattr(w, "dead_time")) == n, "dead_time announces another number of steps")
                        ck.require("once", cons + " action_space", rg.it.res(rg.it.getattr(w, "action_space")) is rg.space, "action space changed")
                        drive(ck, rg, cons, w, n, neutral, plan, fresh)
    for bad in (0, -1):
        with ck.guard("delay", "dead time %d" % bad):
            rg = WrapRig(ck)
            try:
                rg.wrap("DeadTimeProcessor", steps=bad)
                ck.violation("delay", "dead time %d" % bad, "accepted")
            except AbsRaise:
                ck.ok("delay", "dead time %d" % bad)
    for n, mth in ((2, 1), (1, 3)):
        with ck.guard("delay", "dead times %d over %d" % (n, mth)):
            rg = WrapRig(ck, actions="box3")
            w = rg.wrap("DeadTimeProcessor", steps=mth)
            w2 = rg.wrap("DeadTimeProcessor", steps=n, inner=w)
            drive(ck, rg, "dead times %d over %d" % (n, mth), w2, n + mth, [[0.0] * 3] * (n + mth), (n + mth + 2, 2, n + mth + 1), lambda tag: arr([S("a%s_%d_nest" % (tag, j)) for j in range(3)]))


STACKS = (
    ("directly", (), 0),
    ("over a dead time of 1", (("DeadTimeProcessor", dict(steps=1)),), 1),
    ("over a dead time of 3", (("DeadTimeProcessor", dict(steps=3)),), 3),
    ("over cos/sin over a dead time of 2", (("DeadTimeProcessor", dict(steps=2)), ("CosSinProcessor", dict(angle="epsilon"))), 2),
    ("over a dead time of 1 over a current sum", (("CurrentSumProcessor", dict(currents=["i_sa", "i_sb"])), ("DeadTimeProcessor", dict(steps=1))), 1),
    ("over two dead times of 1 and 2", (("DeadTimeProcessor", dict(steps=1)), ("DeadTimeProcessor", dict(steps=2))), 3),
)


def rotating(ck):
    for motor, (cls, space, angle) in MACHINES.items():
        for label, stack, delay in STACKS:
            nested = label.startswith("over two")
            cons = "%s %s" % (motor, label)
            with ck.guard("angle", cons):
                rg = WrapRig(ck, names=SYS_NAMES, actions=space, motor=cls)
                it = rg.it
                w = rg.inner
                for c, kw in stack:
                    w = rg.wrap(c, inner=w, **kw)
                base = ck.cls(it, "DqToAbcActionProcessor")
                mk = lambda t: it.call(it.getattr(base, "make"), [t], dict(physical_system=w))
                dim = {"box3": 2, "box4": 3, "box6": 4}[space]
                pw = mk(motor)
                sp = it.res(it.getattr(pw, "action_space"))
                low, high = norm(it.getattr(sp, "low"), it), norm(it.getattr(sp, "high"), it)
                ck.eq("space", cons, [low, high], [[-1.0] * dim, [1.0] * dim], it=it)
                for tb in ("limits", "nominal_state"):
                    ck.eq("space", "%s %s" % (cons, tb), it.getattr(pw, tb), norm(it.getattr(w, tb), it), it=it)
                p = rg.par["p"]
                for ep in range(2):
                    rg.take()
                    m(it, pw, "reset")
                    queue = []
                    ck.require("once", "%s reset %d" % (cons, ep), [e[0] for e in rg.take()] == ["reset"], "the wrapped system was not reset exactly once")
                    for k in range(delay + 2):
                        st = rg.state
                        a = [S("dq%d_%d_%d" % (j, ep, k)) for j in range(dim)]
                        phys = lambda n, st=st: st[n] * rg.limits[n]
                        step = (0.5 + delay) * rg.tau * phys("omega") * p
                        queue.append((a, phys, step))
                        vec = m(it, pw, "simulate", arr(a))
                        got = received(rg)
                        c = "%s episode %d step %d" % (cons, ep, k)
                        ck.require("once", c, len(got) == 1, "the wrapped system was stepped %d times" % len(got))
                        full = norm(vec, it)[: len(SYS_NAMES)]
                        ck.eq("state", c, full, [rg.state[x] for x in rg.names], it=it)
                        if k < delay or not got:
                            continue
                        a, phys, step = queue[k - delay]
                        if motor == "DFIM":
                            doubly_fed(ck, it, "%s" % cons, got[0], a, phys, step, nested)
                            continue
                        want = dq_abc(a[:2], phys(angle) + step) + list(a[2:])
                        if not nested:
                            ck.eq("angle", c, got[0], want, it=it)
                        else:
                            # the outer dead time hides the inner one from the angle advance
                            short = dq_abc(a[:2], phys(angle) + (0.5 + 2) * rg.tau * phys("omega") * p) + list(a[2:])
                            classify(ck, it, "angle", "nested dead times", c, got[0], want, short, "the angle is advanced by the outer dead time only")
    with ck.guard("angle", "unsupported machine"):
        it = ck.interp("gym_electric_motor", "gym_electric_motor.physical_system_wrappers")
        try:
            it.call(it.getattr(ck.cls(it, "DqToAbcActionProcessor"), "make"), ["SeriesDc"], {})
            ck.violation("angle", "unsupported machine", "accepted")
        except AbsRaise:
            ck.ok("angle", "unsupported machine")


def classify(ck, it, rule, finding, cons, got, right, known, why):
    from ..check import same

    try:
        if same(got, right, None, it)[0] == "equal":
            ck.ok(rule, cons)
        elif same(got, known, None, it)[0] == "equal":
            ck.violation(rule, finding, why)
        else:
            ck.eq(rule, cons, got, right, it=it)
    except (Unsupported, RecursionError) as e:
        ck.undecided(rule, cons, str(e))


def doubly_fed(ck, it, cons, got, a, phys, step, nested):
    eps = phys("epsilon") + step
    if not nested:
        ck.eq("dfim-transform", cons + " balanced", [tm.add(tm.add(*norm(got, it)[i:i + 2]), norm(got, it)[i + 2]) for i in (0, 3)], [0.0, 0.0], it=it)
        right = dq_abc(a[:2], phys("psi_angle") + step) + dq_abc(a[2:], phys("psi_angle") - phys("epsilon"))
        known = dq_abc(a[:2], eps) + dq_abc(a[2:], phys("psi_angle") - eps)
        classify(ck, it, "dfim-frame", "_DFIMDqToAbcActionProcessor", cons, got, right, known, "stator voltages are turned with the rotor angle instead of the angle of the flux the dq states refer to")


def run(ck):
    ck.rule("delay", "with a dead time of n the wrapped system receives the action given n steps earlier, before that the reset actions, in every episode")
    ck.rule("once", "every step and every reset reaches the wrapped system exactly once")
    ck.rule("state", "the state vectors are passed through")
    ck.rule("angle", "rotating-frame actions are transformed at angle + (1/2 + dead time) * tau * p * omega with the state at the decision time")
    ck.rule("space", "the announced action space has one entry in [-1, 1] per rotating-frame action, tables are those of the wrapped system")
    ck.rule("dfim-transform", "three-phase actions of the doubly fed machine have no zero component")
    ck.rule("dfim-frame", "actions of the doubly fed machine are turned into the frame its dq states refer to")
    dead_time(ck)
    rotating(ck)
    ck.min_decided = 800
