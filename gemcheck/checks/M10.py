"""Voltage supplies: model, elapsed time, number of voltages, announced range."""
from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *

U0 = S("u_nominal", "pos")


def volts(ck, it, cons, sup, v):
    v = norm(it.iterate(v), it)
    n = it.getattr(sup, "voltage_len")
    ck.require("count", cons, isinstance(v, list) and len(v) == n, "%s voltages, announced %s" % (len(v) if isinstance(v, list) else v, n))
    return v


def in_range(ck, it, cons, sup, v):
    lo, hi = it.iterate(it.getattr(sup, "supply_range"))
    for k, x in enumerate(v):
        ck.holds("announced-range", "%s [%d]" % (cons, k), tm.and_(tm.le(lo - hi * 1e-9, x), tm.le(x, hi * (1 + 1e-9))), "outside the announced supply range")


def run(ck):
    ck.rule("ideal", "the ideal supply delivers its nominal voltage for every time and current, also at reset")
    ck.rule("rc", "the RC supply delivers the state of du/dt = (u_0 - u - R i)/(R C), advanced from its last call (or reset) to the requested time with the present current")
    ck.rule("sine", "the AC supplies deliver amplitude*sin(2 pi f t + phase) with the configured frequency and phase, phases shifted by 2/3 pi, amplitude sqrt(2) u_nominal (over sqrt(3) per phase for three phases)")
    ck.rule("count", "every call delivers as many voltages as announced")
    ck.rule("announced-range", "delivered voltages lie in the announced supply range")
    ck.rule("nominal", "the nominal voltage is the given one and does not change")
    ck.rule("random-phase", "without a configured phase the phase is drawn in [0, 2 pi) at every reset and constant during the episode")
    ts = [S("t%d" % k, ("range", 0.1 * k + 0.01, 0.1 * k + 0.09)) for k in range(4)]
    is_ = [S("i%d" % k) for k in range(4)]
    for cname in ("IdealVoltageSupply", "RCVoltageSupply", "AC1PhaseSupply", "AC3PhaseSupply"):
        it = ck.interp()
        c = ck.cls(it, cname)
        ck.method(it, c, "get_voltage")
        ck.method(it, c, "reset")
    # ideal
    for lab, kw in (("given", dict(u_nominal=U0)), ("default", {})):
        it = ck.interp()
        cons = "IdealVoltageSupply " + lab
        with ck.guard("ideal", cons):
            s = it.call(ck.cls(it, "IdealVoltageSupply"), [], kw)
            u = U0 if kw else 600.0
            ck.eq("nominal", cons, it.getattr(s, "u_nominal"), u, it=it)
            for ep in (1, 2):
                ck.eq("ideal", "%s reset %d" % (cons, ep), volts(ck, it, cons, s, m(it, s, "reset")), [u], it=it)
                for t, i in zip(ts, is_):
                    v = volts(ck, it, cons, s, m(it, s, "get_voltage", t, i))
                    ck.eq("ideal", "%s episode %d %s" % (cons, ep, tm.show(t)), v, [u], it=it)
                    in_range(ck, it, cons, s, v)
            ck.eq("nominal", cons + " afterwards", it.getattr(s, "u_nominal"), u, it=it)
    # RC
    R, C = S("R", ("range", 1, 2)), S("C", ("range", 4e-3, 5e-3))
    for lab, kw in (("given", dict(u_nominal=U0, supply_parameter={"R": R, "C": C})), ("defaults", {})):
        it = ck.interp()
        cons = "RCVoltageSupply " + lab
        with ck.guard("rc", cons):
            s = it.call(ck.cls(it, "RCVoltageSupply"), [], dict(kw))
            u0, r, c = (U0, R, C) if kw else (600.0, 1, 4e-3)
            ck.eq("nominal", cons, it.getattr(s, "u_nominal"), u0, it=it)
            other = it.call(ck.cls(it, "RCVoltageSupply"), [], dict(kw))
            for ep in (1, 2):
                ck.eq("rc", "%s reset %d" % (cons, ep), volts(ck, it, cons, s, m(it, s, "reset")), [u0], it=it)
                m(it, other, "reset")
                u, t0, kept = u0, 0, []
                for k, (t, i) in enumerate(zip(ts, is_)):
                    m(it, other, "get_voltage", t, S("i_other%d" % k))
                    got = m(it, s, "get_voltage", t, i)
                    v = volts(ck, it, cons, s, got)
                    u = u + (u0 - u - r * i) / (r * c) * (t - t0)
                    t0 = t
                    ck.eq("rc", "%s episode %d call %d" % (cons, ep, k + 1), v, [u], it=it)
                    kept.append((got, u))
                    again = volts(ck, it, cons, s, m(it, s, "get_voltage", t, i))
                    ck.eq("rc", "%s episode %d call %d repeated at the same time" % (cons, ep, k + 1), again, [u], it=it)
                for k, (g, w) in enumerate(kept):
                    ck.eq("rc", "%s episode %d call %d kept" % (cons, ep, k + 1), g, [w], it=it)
            with_sol = it.getattr(s, "supply_range")
            ck.eq("announced-range", cons, it.iterate(with_sol), [0, u0], it=it)
    for bad in ({"R": R}, {"C": C}):
        it = ck.interp()
        cons = "RCVoltageSupply only " + "".join(bad)
        try:
            it.call(ck.cls(it, "RCVoltageSupply"), [], dict(supply_parameter=dict(bad)))
            ck.violation("rc", cons, "incomplete parameters accepted")
        except AbsRaise:
            ck.ok("rc", cons)
        except Unsupported as e:
            ck.undecided("rc", cons, str(e))
    # AC
    f, ph = S("frequency", "pos"), S("phase", ("range", 0, 6.28))
    for cname, n, udef, scale in (("AC1PhaseSupply", 1, 230, 1.0), ("AC3PhaseSupply", 3, 400, 3 ** -0.5)):
        for lab, kw in (
            ("given", dict(u_nominal=U0, supply_parameter={"frequency": f, "phase": ph})),
            ("default voltage", dict(supply_parameter={"frequency": f, "phase": ph})),
            ("zero phase", dict(u_nominal=U0, supply_parameter={"frequency": f, "phase": 0})),
            ("random phase", dict(u_nominal=U0, supply_parameter={"frequency": f})),
            ("defaults", {}),
        ):
            it = ck.interp()
            cons = "%s %s" % (cname, lab)
            with ck.guard("sine", cons):
                given = {k: (dict(v) if isinstance(v, dict) else v) for k, v in kw.items()}
                s = it.call(ck.cls(it, cname), [], given)
                other = it.call(ck.cls(it, cname), [], dict(u_nominal=S("u_other", "pos"), supply_parameter={"frequency": S("f_other", "pos"), "phase": 1.0}))
                u0 = kw.get("u_nominal", udef)
                ff = kw.get("supply_parameter", {}).get("frequency", 50)
                amp = u0 * (2 ** 0.5) * scale
                ck.eq("nominal", cons, it.getattr(s, "u_nominal"), u0, it=it)
                phases = []
                for ep in (1, 2, 3):
                    m(it, other, "reset")
                    v = volts(ck, it, cons, s, m(it, s, "reset"))
                    in_range(ck, it, cons + " reset", s, v)
                    p = kw.get("supply_parameter", {}).get("phase")
                    if p is None:
                        cand = {t for t in tm.subterms(*[x for x in v if isinstance(x, tm.T)]) if t.op == "fn" and t.args[0] == "u01"}
                        ck.require("random-phase", "%s reset %d" % (cons, ep), len(cand) == 1, "%d random draws determine the phase" % len(cand))
                        if len(cand) != 1:
                            continue
                        p = cand.pop() * 2 * PI
                        ck.require("random-phase", "%s reset %d new" % (cons, ep), p not in phases, "phase of an earlier episode")
                        phases.append(p)
                    wave = lambda t: [amp * tm.fn("sin", f_(t, ff, p) + 2 * PI / 3 * k) for k in range(n)]
                    ck.eq("sine", "%s reset %d" % (cons, ep), v, wave(0), it=it)
                    for t, i in zip(ts, is_):
                        m(it, other, "get_voltage", t, i)
                        v = volts(ck, it, cons, s, m(it, s, "get_voltage", t, i))
                        ck.eq("sine", "%s episode %d %s" % (cons, ep, tm.show(t)), v, wave(t), it=it)
                        in_range(ck, it, cons, s, v)
    ck.min_decided = 250


def f_(t, f, p):
    return 2 * PI * f * t + p if not (isinstance(t, (int, float)) and t == 0) else p
