"""One simulation step: order and arguments of the calls on converter, supply and solver, time and step counter."""
import numpy as np

from .. import terms as tm
from .. import convmodel as cm
from ..check import norm, same
from ..interp import arr
from ..rig import *
from ..systems import *
from .M04 import build, stub


def ysyms(rg, k):
    return [S("y%d_%d" % (k, j)) for j in range(rg.ode_dim)]


def nested(x):
    return norm(x)


def t_end(rg, t, j, nsub):
    return tm.add(t, rg.tau) if j == nsub - 1 else S("ts%d" % j)


CONVERTERS = {
    "DcSeriesMotor": ("4Q", [0, 1, 3, 2]),
    "DcPermanentlyExcitedMotor": ("2Q", [1, 2, 0, 2, 1]),
    "DcShuntMotor": ("2Q", [2, 1, 1, 0, 1]),
    "DcExternallyExcitedMotor": (["4Q", "2Q"], [[1, 2], [2, 2], [1, 1]]),
    "PermanentMagnetSynchronousMotor": ("B6", [5, 2, 2, 7]),
    "SynchronousReluctanceMotor": ("B6", [0, 7, 1]),
    "SquirrelCageInductionMotor": ("B6", [6, 1, 3]),
    "ExternallyExcitedSynchronousMotor": (["B6", "4Q"], [[5, 1], [2, 2], [2, 3]]),
    "DoublyFedInductionMotor": (["B6", "B6"], [[5, 1], [2, 1], [2, 6]]),
}
TAU = 1e-4


def composed(ck, name, til_on):
    """The step sequence together with the library's own finite converters: the voltage of each command lasts exactly
    from the end of the interlocking time to the end of the step."""
    kind, seq = CONVERTERS[name]
    sysn = MOTORS[name]["system"]
    cons = "%s(%s) with finite %s%s" % (sysn, name, cm.label(kind), " interlocked" if til_on else "")
    it = ck.interp()
    with ck.guard("commanded-voltage", cons):
        til = S("til", ("range", 2e-6, 5e-5)) if til_on else 0.0
        cv = cm.make(ck, it, kind, tau=TAU, interlocking_time=til)
        rg, par, lims = build(it, name, tau=TAU, converter=cv)
        rg.start(t0=0)
        rf = cm.ref(kind)
        t = 0
        for n, a in enumerate(seq):
            locked = rf.set_action(a, til_on)
            rg.log.clear()
            k0, sp0 = rg.n_int, rg.n_supply
            m(it, rg.sys, "simulate", list(a) if isinstance(a, list) else a)
            ends = [t + til, t + TAU] if locked else [t + TAU]
            ints = rg.kinds("integrate")
            c = "%s action %d" % (cons, n + 1)
            if not ck.require("commanded-voltage", c + " sub-intervals", len(ints) == len(ends), "%d instead of %d" % (len(ints), len(ends))):
                return
            for j, e in enumerate(ints):
                y = ysyms(rg, k0 + j)
                v = [tm.mul(x, S("us%d" % (sp0 + j + 1), "pos")) for x in rf.u(terminal_currents(name, y, par), locked and j == 0)]
                ck.eq("time", "%s interval %d end" % (c, j + 1), e[1], ends[j], it=it)
                ck.eq("commanded-voltage", "%s interval %d" % (c, j + 1), e[2][0], motor_input(name, y, v), it=it)
            t = t + TAU


def steps(ck, name, nsub, nsteps=3, dq=False):
    sysn = MOTORS[name]["system"]
    eesm = sysn == "ExternallyExcitedSynchronousMotorSystem"
    cons = "%s(%s) %d sub-interval%s%s" % (sysn, name, nsub, "s" if nsub > 1 else "", " dq" if dq else "")
    it = ck.interp()
    with ck.guard("step-sequence", cons):
        rg, par, lims = build(it, name, n_sub=nsub, **(dict(control_space="dq") if dq else {}))
        rg.start(t0=0)
        act = arr([S("act%d" % i) for i in range((3 if eesm else 2) if dq else rg.nph)])
        if dq:
            sp = it.getattr(rg.sys, "action_space")
            ck.eq("action-applied", cons + " action space", [it.getattr(sp, "low"), it.getattr(sp, "high")], [[-1] * len(act), [1] * len(act)], it=it)
        t = 0
        for step in range(1, nsteps + 1):
            c = "%s step %d" % (cons, step)
            rg.log.clear()
            k0 = rg.n_int
            cv0, sp0 = rg.n_convert, rg.n_supply
            m(it, rg.sys, "simulate", act)
            seq = [e[0] for e in rg.log]
            n = {k: seq.count(k) for k in ("set_action", "convert", "i_sup", "get_voltage", "f_params", "integrate")}
            want = dict(set_action=1, convert=nsub, i_sup=nsub, get_voltage=nsub, f_params=nsub, integrate=nsub)
            ck.require("step-sequence", c, n == want and seq[0] == "set_action", "calls %s instead of %s" % (n, want))
            if n != want:
                return
            # each sub-interval: i_sup before get_voltage, convert and get_voltage before f_params, f_params before integrate
            ok, seg = True, []
            cur = []
            for e in rg.log[1:]:
                cur.append(e)
                if e[0] == "integrate":
                    seg.append(cur)
                    cur = []
            ok = len(seg) == nsub and not cur
            for s_ in seg:
                ks = [e[0] for e in s_]
                ok = ok and sorted(ks) == ["convert", "f_params", "get_voltage", "i_sup", "integrate"] and ks.index("i_sup") < ks.index("get_voltage") < ks.index("f_params") < ks.index("integrate") and ks.index("convert") < ks.index("f_params")
            ck.require("sub-interval-sequence", c, ok, "call order %s" % seq)
            if not ok:
                return
            sa = rg.log[0]
            if dq:
                y = ysyms(rg, k0)
                ang = field_angle(y) if "Induction" in sysn else y[-1]
                want_a = dq_abc([S("act0"), S("act1")], ang) + ([S("act2")] if eesm else [])
            else:
                want_a = list(act)
            ck.eq("action-applied", c, sa[1], want_a, it=it)
            ck.eq("time", c + " converter", sa[2], t, it=it)
            isup_terms = []
            for j, s_ in enumerate(seg):
                cj = "%s interval %d" % (c, j + 1)
                e = {x[0]: x for x in s_}
                y = ysyms(rg, k0 + j)
                tj = t if j == 0 else S("ts%d" % (j - 1))
                i_want = terminal_currents(name, y, par)
                ck.eq("converter-current", cj, e["convert"][1], i_want, it=it)
                ck.eq("converter-current", cj + " supply current", e["i_sup"][1], i_want, it=it)
                st, _ = same(e["convert"][2], tj, None, it)
                st2, _ = same(e["convert"][2], t_end(rg, t, j, nsub), None, it)
                ck.require("time", cj + " converter time", "equal" in (st, st2), "converter is evaluated at %s, outside the sub-interval" % (e["convert"][2],))
                # the supply current handed over is the one just computed by the converter
                sup_sym = S("isup%d" % next(q + 1 for q, x in enumerate(rg.log) if x is e["i_sup"]))
                ck.eq("supply-current", cj, e["get_voltage"][2], sup_sym, it=it)
                st, _ = same(e["get_voltage"][1], tj, None, it)
                st2, _ = same(e["get_voltage"][1], t, None, it)
                ck.require("time", cj + " supply time", "equal" in (st, st2), "supply is evaluated at %s" % (e["get_voltage"][1],))
                us = S("us%d" % (sp0 + j + 1), "pos")
                v = [S("v%d_%d" % (cv0 + j + 1, i)) * us for i in range(rg.nph)]
                par_got = e["f_params"][1]
                ck.require("motor-input", cj + " arity", len(par_got) == 1, "%d solver parameters" % len(par_got))
                ck.eq("motor-input", cj, par_got[0], motor_input(name, y, v), it=it)
                target = t_end(rg, t, j, nsub)
                ck.eq("time", cj + " end", e["integrate"][1], target, it=it)
                ck.eq("motor-input", cj + " in use while integrating", e["integrate"][2][0] if e["integrate"][2] else None, motor_input(name, y, v), it=it)
            t = tm.add(t, rg.tau)
            kk = it.getattr(rg.sys, "k")
            ck.eq("step-counter", c, kk, step, it=it)
        if dq:
            return
        # reset restarts counter and time
        x = [S("x%d" % j) for j in range(rg.ode_dim)]
        stub(it, rg, x)
        rg.log.clear()
        m(it, rg.sys, "reset")
        kinds = [e[0] for e in rg.log]
        ck.require("reset", cons + " calls", kinds.count("conv_reset") == 1 and kinds.count("supply_reset") == 1 and kinds.count("set_initial") == 1 and len(kinds) == 3, "%s" % kinds)
        for e in rg.log:
            if e[0] == "set_initial":
                ck.eq("reset", cons + " initial value", e[1], x, it=it)
                ck.eq("reset", cons + " initial time", e[2], 0, it=it)
        ck.eq("reset", cons + " step counter", it.getattr(rg.sys, "k"), 0, it=it)
        rg.log.clear()
        m(it, rg.sys, "simulate", act)
        e = [x for x in rg.log if x[0] == "set_action"][0]
        ck.eq("reset", cons + " time of the next step", e[2], 0, it=it)
        ie = [x for x in rg.log if x[0] == "integrate"]
        ck.eq("reset", cons + " end of the next step", ie[-1][1] if ie else None, rg.tau, it=it)
        ck.eq("step-counter", cons + " after reset", it.getattr(rg.sys, "k"), 1, it=it)


def run(ck):
    ck.rule("step-sequence", "simulate() sets the action once and evaluates converter, supply current, supply voltage, motor input and integration once per switching sub-interval")
    ck.rule("sub-interval-sequence", "inside each sub-interval: supply current, supply voltage and converter output precede the motor input, which precedes the integration")
    ck.rule("action-applied", "the action handed to the converter is the given one (or its transformation at the present rotor/field angle in dq control space)")
    ck.rule("converter-current", "the converter is evaluated with the motor's terminal currents at the start of the sub-interval")
    ck.rule("supply-current", "the supply is loaded with the current just computed by the converter")
    ck.rule("motor-input", "the solver parameters of a sub-interval are the converter output times the supply voltage in the motor's input frame at that sub-interval's start")
    ck.rule("time", "the sub-intervals end at the announced switching times, the last one exactly one sampling time after the step's start; the next step starts there")
    ck.rule("step-counter", "the step counter grows by one per step and restarts at zero")
    ck.rule("reset", "reset hands the initial state to the solver at time zero and resets converter and supply once")
    ck.rule("commanded-voltage", "composed with the library's finite converters, the voltage of a command is applied from the end of the interlocking time until the end of the step")
    for name in MOTORS:
        composed(ck, name, False)
        composed(ck, name, True)
        it = ck.interp()
        sc = ck.cls(it, MOTORS[name]["system"])
        for mt in ("simulate", "reset"):
            ck.method(it, sc, mt)
        for nsub in (1, 2, 3) if ck.tier == "quick" else (1, 2, 3, 4, 5):
            steps(ck, name, nsub, 3 if ck.tier == "quick" else 5)
        if MOTORS[name]["system"] in ("SynchronousMotorSystem", "SquirrelCageInductionMotorSystem", "ExternallyExcitedSynchronousMotorSystem"):
            steps(ck, name, 1, 2, dq=True)
    ck.min_decided = 500
