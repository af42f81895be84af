"""Signal path and operation points of the controllers, compared with the machine model they control."""
import numpy as np

from .. import terms as tm
from ..check import norm
from ..corpus import *
from ..gcrig import *
from ..rig import MOTORS, clark_inv, dq_abc, rot, volt_arg
from .G03 import CURR, VOLT, cofactor

CLASSES = {"series": "DcSeriesMotor", "shunt": "DcShuntMotor", "permex": "DcPermanentlyExcitedMotor", "extex": "DcExternallyExcitedMotor",
           "pmsm": "PermanentMagnetSynchronousMotor", "synrm": "SynchronousReluctanceMotor", "scim": "SquirrelCageInductionMotor", "eesm": "ExternallyExcitedSynchronousMotor"}

PROBE = '''
class Probe:
    """Stands for the controller inside the adapter: remembers what it is given."""
    def __init__(self, answer):
        self.answer = answer
        self.seen = []
        self.references = dict()
        self.referenced_states = []
        self.maximum_reference = dict()
    def control(self, state, reference):
        self.seen.append((list(state), list(reference)))
        return self.answer
    def reset(self):
        pass
    def tune(self, *args, **kwargs):
        pass
'''

FLUX = '''
class Flux:
    """Stands for the flux controller of the operation point selection: remembers the flux it shall control."""
    def __init__(self):
        self.seen = []
    def __call__(self, state, reference):
        self.seen.append(reference[0])
        return state * 0.0
    def integrate(self, state, reference):
        pass
    def reset(self):
        pass
'''


def motor_of(w, e):
    it = w.it
    return it.res(it.getattr(it.getattr(e, "physical_system"), "electrical_motor"))


def vec(w, e, q):
    return arr([q[n] for n in w.names(e)[0]])


def run(ck):
    ck.rule("input", "the inner controllers receive states and references in physical units; the caller's arrays stay unchanged")
    ck.rule("state-order", "the action does not depend on the order in which the environment shows its states")
    ck.rule("feedforward", "with the feedforward the current derivatives of the machine do not depend on speed or on the other axes")
    ck.rule("transformation", "the dq voltages are applied at the electrical angle in the middle of the interval in which they become effective")
    ck.rule("output", "the converter applies the voltages the controller requests at nominal supply")
    ck.rule("torque", "the selected operation point produces the requested torque unless a limit is reached")
    ck.rule("flux", "operation points computed for a flux have that flux")
    ck.rule("optimal", "the selected operation points minimise the documented losses where they are selected freely")
    ck.rule("flux control", "the flux of the induction machine is controlled by the limited PI law of its error, integrating only while the current is not limited")
    ck.rule("tables", "the rows of the operation point tables satisfy torque, flux and voltage equations of the machine")
    ck.rule("selection", "for every state and torque reference the selected currents are numbers, their torque has the sign of the reference and does not exceed it, and their flux respects the modulation limit")
    ck.rule("modulation", "the modulation control adds a limited correction, growing with the voltage reserve, to the flux of the voltage limit; its parameters are the ones given by the user")
    ck.rule("lookup", "the row selected for a tabulated value is the row of this value")
    w = GcWorld(ck)
    it = w.it
    probe = it.load_text("gemspec.probe", PROBE).ns["Probe"]
    signal_path(ck, w, probe)
    for mo in MOTOR_IDS:
        feedforward(ck, w, mo)
    transformation(ck, w)
    output(ck, w)
    dc_points(ck, w)
    ac_points(ck, w)
    selection(ck, w)
    modulation(ck, w)
    ck.min_decided = 150


def signal_path(ck, w, probe):
    it = w.it
    for c in combos(acts=("Cont",)):
        with ck.guard("input", c.label):
            e = w.env_of(c)
            ctl = w.make(e, c)
            names, refs = w.names(e)
            lim = w.limits(e)
            _, _, cur = w.parts(ctl)
            n = 3 if c.motor in AC else len(VOLT[c.motor])
            if c.motor == "eesm":
                n = 4
            p = it.call(probe, [arr([S("answer %d" % k) for k in range(n)])], {})
            it.setattr(ctl, "controller", p)
            s, r = w.state(e, "s"), w.reference(e, "r")
            s0, r0 = list(s), list(r)
            m(it, ctl, "control", s, r)
            seen = norm(it.getattr(p, "seen"), it)
            ck.require("input", c.label + " calls", len(seen) == 1, "the inner controller is called %d times" % len(seen))
            ck.eq("input", c.label + " state", seen[0][0], [tm.mul(x, lim[q]) for x, q in zip(s0, names)], it=it)
            ck.eq("input", c.label + " reference", seen[0][1], [tm.mul(x, lim[q]) for x, q in zip(r0, refs)], it=it)
            ck.require("input", c.label + " arrays", list(s) == s0 and list(r) == r0, "control changes the state or reference of its caller")
        with ck.guard("state-order", c.label):
            e = w.env_of(c)
            names, refs = w.names(e)
            shown = list(reversed(names))
            e2 = w.env_of(c, state_filter=list(shown))
            n2, r2 = w.names(e2)
            shift = [names.index(q) for q in n2]
            a, b = w.make(e, c), w.make(e2, c)
            s, r = w.state(e, "s"), w.reference(e, "r")
            x = norm(m(it, a, "control", s, r), it)
            y = norm(m(it, b, "control", arr([s[k] for k in shift]), r), it)
            ck.require("state-order", c.label + " shown", n2 != names and sorted(n2) == sorted(names), "states shown: %s" % n2)
            ck.eq("state-order", c.label, y, x, it=it)


def feedforward(ck, w, mo):
    it = w.it
    c = Combo("Cont", "Current", mo)
    with ck.guard("feedforward", c.label):
        e = w.env_of(c, tau=2e-4)
        ctl = w.make(e, c)
        _, _, cur = w.parts(ctl)
        ff = it.getattr(cur, "emf_feedforward")
        mot = motor_of(w, e)
        q = w.physical_state(e)
        om = q["omega"]
        v = [S("v %s" % x, ("range", -50.0, 50.0)) for x in VOLT[mo]]
        if mo == "scim":
            q["psi_abs"] = S("psi pos", ("range", 0.05, 1.5))
        u = norm(it.call(ff, [vec(w, e, q), arr(list(v))], {}), it)
        ck.require("feedforward", c.label + " components", isinstance(u, list) and len(u) == len(v), "yields %s components" % (len(u) if isinstance(u, list) else 1))
        name = CLASSES[mo]
        ode = lambda x, us, o: norm(m(it, mot, "electrical_ode", arr(list(x)), volt_arg(name, us), o), it)
        if mo == "scim":
            phi = S("flux angle", "angle")
            cs, sn = tm.fn("cos", phi), tm.fn("sin", phi)
            psi = q["psi_abs"]
            i, ps, us = rot(q["i_sd"], q["i_sq"], phi), [tm.mul(psi, cs), tm.mul(psi, sn)], rot(u[0], u[1], phi)
            d = ode(i + ps + [0.0], us, om)
            w_s = tm.div(sub(tm.mul(ps[0], d[3]), tm.mul(ps[1], d[2])), tm.mul(psi, psi))
            dd = rot(d[0], d[1], tm.mul(-1, phi))
            got = [total(dd[0], tm.mul(w_s, q["i_sq"])), sub(dd[1], tm.mul(w_s, q["i_sd"]))]
            want = [ode([q[x], 0.0, 0.0, 0.0, 0.0], [v[k], 0.0], 0.0)[0] for k, x in enumerate(("i_sd", "i_sq"))]
        else:
            xs = [q[x] for x in MOTORS[name]["x"] if x != "epsilon"] + ([q["epsilon"]] if "epsilon" in MOTORS[name]["x"] else [])
            got = ode(xs, u, om)
            if mo == "eesm":  # without coupling every winding is an R-L circuit
                p = w.motor_parameter(e)
                want = [tm.mul(1 / p[l], sub(v[k], tm.mul(p[r], q[x]))) for k, (l, r, x) in enumerate((("l_d", "r_s", "i_sd"), ("l_q", "r_s", "i_sq"), ("l_e", "r_e", "i_e")))]
            else:
                want = ode(xs, v, 0.0)
        for k, x in enumerate(CURR[mo]):
            j = MOTORS[name]["i"].index(x) if x in MOTORS[name]["i"] else k
            ck.eq("feedforward", "%s %s" % (c.label, x), got[j], want[k if mo in ("scim", "eesm") else j], it=it)
        # the flag of make switches the stage off
        off = w.parts(w.make(e, c, decoupling=False, base_current_controller="P"))[2]
        on = w.parts(w.make(e, c, decoupling=True, base_current_controller="P"))[2]
        st = vec(w, e, q)
        rf = arr([S("r %s" % x, ("range", -5.0, 5.0)) for x in CURR[mo]])
        for flag, o in ((False, off), (True, on)):
            b = it.call(it.getattr(o, "current_base_controller"), [st, rf], {})
            if flag:
                b = it.call(it.getattr(o, "emf_feedforward"), [st, b], {})
            b = it.call(it.getattr(o, "clipping_stage"), [st, b], {})
            if mo in AC:
                b = it.call(it.getattr(o, "transformation_stage"), [st, b], {})
            ck.eq("feedforward", "%s decoupling=%s" % (c.label, flag), m(it, o, "current_control", st, rf), norm(b, it), it=it)


def transformation(ck, w):
    it = w.it
    for mo in AC:
        for dead in (None, 1, 2):
            c = Combo("Cont", "Current", mo)
            con = "%s dead time %s" % (c.label, dead)
            with ck.guard("transformation", con):
                wr = [] if dead is None else [w.new("DeadTimeProcessor", steps=dead)]
                e = w.env_of(c, wrappers=wr, tau=2.5e-4)
                _, _, cur = w.parts(w.make(e, c))
                q = w.physical_state(e)
                v = [S("v %s any" % x, "real") for x in VOLT[mo]]
                p = w.motor_parameter(e)["p"]
                ang = q["psi_angle" if mo == "scim" else "epsilon"]
                adv = tm.mul((0.5 + (dead or 0)) * 2.5e-4 * p, q["omega"])
                got = it.call(it.getattr(cur, "transformation_stage"), [vec(w, e, q), arr(list(v))], {})
                ck.eq("transformation", con, got, dq_abc(v[:2], total(ang, adv)) + v[2:], it=it)


def output(ck, w):
    it = w.it
    for mo in MOTOR_IDS:
        c = Combo("Cont", "Current", mo)
        with ck.guard("output", c.label):
            e = w.env_of(c)
            ctl = w.make(e, c)
            ps = it.getattr(e, "physical_system")
            cv = it.getattr(ps, "converter")
            nom = norm(it.getattr(it.getattr(ps, "supply"), "u_nominal"), it)
            tau = it.res(it.getattr(ps, "tau"))
            n = len(it.res(it.getattr(e, "action_space")).attrs["low"])
            for case, f in (("positive", [0.05 + 0.01 * k for k in range(n)]), ("negative", [-0.06 + 0.01 * k for k in range(n)])):
                if any(x < 0 for x in f) and any(x >= 0 for x in norm(it.res(it.getattr(e, "action_space")).attrs["low"], it)):
                    continue
                v = [nom * x for x in f]
                a = it.call(it.getattr(ctl, "output_stage"), [w.state(e, "s"), arr(list(v))], {})
                it.call(it.getattr(cv, "reset"), [], {})
                times = norm(m(it, cv, "set_action", a, 0.0), it)
                u = norm(m(it, cv, "convert", [0.0] * n, times[-1]), it)
                bad = [k for k in range(n) if not close(num(u[k]) * nom, v[k])]
                ck.require("output", "%s %s" % (c.label, case) if mo in DC else c.label, not bad, "requested %s, the converter applies %s" % (v, [num(x) * nom for x in u]))
    for mo in DC:
        for conv in (None, "FiniteOneQuadrantConverter", "FiniteTwoQuadrantConverter", "FiniteFourQuadrantConverter"):
            if mo == "extex" and conv is not None:
                continue
            c = Combo("Finite", "Current", mo)
            con = "%s %s" % (c.label, conv or "default")
            with ck.guard("output", con):
                k = {} if conv is None else dict(converter=w.new(conv))
                e = w.env_of(c, **k)
                ctl = w.make(e, c)
                ps = it.getattr(e, "physical_system")
                cv = it.getattr(ps, "converter")
                hi = norm(it.res(it.getattr(cv, "voltages")).attrs["high"], it)
                lo = norm(it.res(it.getattr(cv, "voltages")).attrs["low"], it)
                lim = w.limits(e)
                n = len(VOLT[mo])
                for level, f in (("high", 0.9), ("low", -0.9), ("idle", 0.0)):
                    v = [lim[q] * f for q in VOLT[mo]]
                    a = it.call(it.getattr(ctl, "output_stage"), [w.state(e, "s"), arr(v)], {})
                    it.call(it.getattr(cv, "reset"), [], {})
                    times = norm(m(it, cv, "set_action", a, 0.0), it)
                    u = norm(m(it, cv, "convert", [0.0] * n, times[-1]), it)
                    want = [float(hi[j]) if f > 0 else max(float(lo[j]), -1.0) if f < 0 else 0.0 for j in range(n)]
                    ck.eq("output", "%s %s" % (con, level), u, want, it=it)


def dc_points(ck, w):
    it = w.it
    for mo in DC:
        c = Combo("Cont", "Torque", mo)
        with ck.guard("torque", c.label):
            e = w.env_of(c)
            margin = 0.3
            _, tq, _ = w.parts(w.make(e, c, current_safety_margin=margin))
            ops = it.getattr(tq, "torque_to_current_stage")
            mot = motor_of(w, e)
            p = w.motor_parameter(e)
            lim = w.limits(e)
            q = w.physical_state(e)
            T = S("T* %s" % mo, ("range", 0.0 if mo == "series" else -lim["torque"], lim["torque"]))
            i_e = None
            if mo in ("shunt", "extex"):
                i_e = q["i_e"] = S("i_e in range %s" % mo, ("range", 0.001, lim["i_e"] * (1 - margin) * 0.999))
            got = norm(it.call(ops, [vec(w, e, q), arr([T])], {}), it)
            got = got if isinstance(got, list) else [got]
            if mo == "series":
                ck.eq("torque", c.label, m(it, mot, "torque", arr([got[0]])), T, it=it)
            elif mo == "permex":
                free = tm.div(T, p["psi_e"])
                top = tm.div(sub(lim["u"], tm.mul(p["psi_e"], tm.fn("abs", q["omega"]))), p["r_a"])
                up = tm.lt(0, q["omega"])
                want = tm.ite(up, tm.minimum(free, top), tm.maximum(free, tm.mul(-1, top)))
                ck.eq("torque", c.label, got[0], want, it=it)
                ck.eq("torque", c.label + " model", m(it, mot, "torque", arr([free])), T, it=it)
            else:
                ck.eq("torque", c.label, m(it, mot, "torque", arr([got[0], i_e])), T, it=it)
            if mo == "extex":
                want = sqrt(tm.mul((p["r_a"] / p["r_e"]) ** 0.5 / p["l_e_prime"], tm.fn("abs", T)))
                ck.eq("optimal", c.label + " i_e", got[1], want, it=it)


def num(x):
    return float(x)


def close(a, b, tol=1e-7, scale=1.0):
    return abs(a - b) <= tol * max(scale, abs(a), abs(b))


def ac_points(ck, w):
    it = w.it
    for mo in AC:
        c = Combo("Cont", "Torque", mo)
        with ck.guard("torque", c.label):
            e = w.env_of(c)
            margin = 0.25
            _, tq, _ = w.parts(w.make(e, c, current_safety_margin=margin))
            ops = it.res(it.getattr(tq, "torque_to_current_stage"))
            mot = motor_of(w, e)
            p = w.motor_parameter(e)
            lim = w.limits(e)
            if mo == "scim":
                scim(ck, w, e, c, ops, mot, p, lim, margin)
                continue
            T, psi = S("T* %s" % mo, ("range", 0.1, lim["torque"])), S("psi*", "pos")
            i_e = S("i_e* %s" % mo, ("range", 0.1, lim["i_e"])) if mo == "eesm" else None
            p_m = tm.mul(p["l_m"], i_e) if mo == "eesm" else p.get("psi_p", 0.0)
            dl = p["l_d"] - p["l_q"]
            if has(it, ops, "solve_analytical"):
                n0 = len(it.events)
                sol = norm(m(it, ops, "solve_analytical", T, psi, *([i_e] if mo == "eesm" else [])), it)
                x = [sol[0], sol[1]] + ([i_e] if mo == "eesm" else []) + [0.0]
                ck.eq("torque", c.label + " analytical", m(it, mot, "torque", arr(x)), T, it=it)
                calls = [ev for ev in it.events[n0:] if ev.kind == "extcall" and str(ev.name).endswith(".roots")]
                ck.require("flux", c.label + " polynomial", len(calls) == 1, "roots are computed %d times" % len(calls))
                if calls:
                    co = norm(calls[0].args[0], it)
                    z = S("i_d", ("range", -20.0, -0.5))
                    poly = 0
                    for a in co:
                        poly = total(tm.mul(poly, z), a)
                    f = total(p_m, tm.mul(dl, z))
                    want = total(tm.mul(tm.power(total(p_m, tm.mul(p["l_d"], z)), 2), tm.power(f, 2)), tm.mul(-1, tm.mul(tm.power(psi, 2), tm.power(f, 2))), tm.power(tm.mul(2 * p["l_q"] / (3 * p["p"]), T), 2))
                    ck.eq("flux", c.label + " analytical", poly, want, it=it)
            for table, cols in (("mtpc", ("t", "d", "q", "psi")), ("mtpf", ("psi", "t", "d", "q"))):
                if not has(it, ops, table):
                    continue
                rows = norm(it.getattr(ops, table), it)
                rows = [dict(zip(cols, r)) for r in rows]
                con = "%s %s" % (c.label, table)
                ck.require("tables", con + " rows", len(rows) >= 4 and all(len(r) == 4 for r in rows), "%d rows" % len(rows))
                for k, r in enumerate(rows):
                    t = norm(m(it, mot, "torque", arr([r["d"], r["q"], 0.0])), it)
                    t = num(t[0] if isinstance(t, list) else t)
                    ck.require("tables", "%s row torque" % con, close(t, num(r["t"]), scale=1e-3 * lim["torque"]) if table == "mtpc" else close(abs(t), abs(num(r["t"])), scale=1e-3 * lim["torque"]), "row %d: currents %s give torque %g, tabulated %g" % (k, (r["d"], r["q"]), t, r["t"]))
                    fl = float(np.hypot(p_m + p["l_d"] * r["d"], p["l_q"] * r["q"]))
                    good = close(fl, abs(num(r["psi"])), scale=1e-3)
                    if not good and table == "mtpf" and fl < abs(num(r["psi"])):
                        # fluxes that no admissible current reaches keep the last point
                        good = any(o is not r and (o["d"], o["q"]) == (r["d"], r["q"]) and close(fl, abs(num(o["psi"])), scale=1e-3) for o in rows)
                    ck.require("tables", "%s row flux" % con, good, "row %d: currents %s give flux %g, tabulated %g" % (k, (r["d"], r["q"]), fl, r["psi"]))
                    if table == "mtpf":
                        ck.require("tables", "%s limit" % con, np.hypot(r["d"], r["q"]) <= lim["i_sd"] * (1 - margin) * 1.001 or r["psi"] == 0, "row %d exceeds the current limit with margin" % k)
            for f, table, col, scalar in (("_get_psi_idx_mtpf", "mtpf", 0, True), ("_get_t_idx_mtpc", "mtpc", 0, False)):
                if has(it, ops, f) and has(it, ops, table):
                    rows = norm(it.getattr(ops, table), it)
                    for k, r in enumerate(rows):
                        v = num(r[col])
                        j = norm(m(it, ops, f, v if scalar else arr([v])), it)
                        ck.require("lookup", "%s %s" % (c.label, table), close(num(rows[int(j)][col]), v), "value %g selects the row of %g" % (v, rows[int(j)][col]))
            if mo in ("eesm", "pmsm", "synrm"):
                if mo != "eesm":
                    ops = it.call(ops.cls, [], {"torque_control": "analytical"})
                    m(it, ops, "tune", e, c.eid, margin)
                for f, grid, axis in (("_get_psi_idx", "psi_grid", 1), ("_get_t_idx", "t_grid", 0)):
                    if has(it, ops, f) and has(it, ops, grid):
                        g = np.array(norm(it.getattr(ops, grid), it), dtype=float)
                        col = g[0, :] if axis else g[:, 0]
                        if mo != "eesm":  # the tables of these machines are indexed [torque, flux], their grids the other way round
                            col = g[:, 0] if axis else g[0, :]
                        for k, v in enumerate(col):
                            j = int(norm(m(it, ops, f, float(v) if axis or mo == "eesm" else arr([float(v)])), it))
                            ck.require("lookup", "%s %s" % (c.label, grid), close(col[j], v), "value %g selects the grid point %g" % (v, col[j]))


def scim(ck, w, e, c, ops, mot, p, lim, margin):
    it = w.it
    l_r = p["l_m"] + p["l_sigr"]
    l_s = p["l_m"] + p["l_sigs"]
    q = w.physical_state(e)
    psi = q["psi_abs"] = S("psi free", ("range", 0.9, 1.5))
    T = S("T* %s" % c.motor, ("range", 0.3 * lim["torque"], 0.6 * lim["torque"]))
    tab = [np.array(norm(it.getattr(ops, t), it), dtype=float) for t in ("psi_opt_t", "t_max_psi") if has(it, ops, t)]
    ck.require("tables", c.label + " present", len(tab) == 2, "tables psi_opt_t, t_max_psi")
    if len(tab) == 2:
        opt, mx = tab
        k_t = 1.5 * p["p"] * p["l_m"] / l_r
        for k in range(opt.shape[1]):
            t, ps, d, qq = opt[:, k]
            ck.require("tables", c.label + " optimal flux", close(ps, p["l_m"] * d, scale=1e-6), "column %d: flux %g for i_sd %g" % (k, ps, d))
            tc = norm(m(it, mot, "torque", arr([d, qq, ps, 0.0, 0.0])), it)
            tc = num(tc[0] if isinstance(tc, list) else tc)
            ck.require("tables", c.label + " optimal torque", close(tc, t, scale=1e-3 * lim["torque"]), "column %d: currents (%g, %g) give torque %g, tabulated %g" % (k, d, qq, tc, t))
        nom = dict(zip(w.names(e)[0], norm(it.getattr(e, "nominal_state"), it)))
        for k in range(mx.shape[1]):
            t, ps, d, qq = mx[:, k]
            if qq != qq:
                continue
            tc = norm(m(it, mot, "torque", arr([d, qq, ps, 0.0, 0.0])), it)
            tc = num(tc[0] if isinstance(tc, list) else tc)
            ck.require("tables", c.label + " torque limit", close(tc, t, scale=1e-3 * lim["torque"]) and close(ps, p["l_m"] * d, scale=1e-6), "column %d: currents (%g, %g), flux %g give torque %g, tabulated %g" % (k, d, qq, ps, tc, t))
            ck.require("tables", c.label + " voltage limit", close(nom["omega"] * l_s * np.hypot(d, qq), nom["u_sd"], tol=1e-6), "column %d: stator flux voltage is not the nominal voltage" % k)
        if has(it, ops, "_get_psi_opt"):
            for v in opt[0]:
                j = int(norm(m(it, ops, "_get_psi_opt", float(v)), it))
                ck.require("lookup", c.label + " _get_psi_opt", close(opt[0][j], v), "value %g selects %g" % (v, opt[0][j]))
        # the torque is limited by what the voltage allows at the flux the controller asks for
        flux = it.call(it.load_text("gemspec.flux", FLUX).ns["Flux"], [], {})
        keep = it.getattr(ops, "psi_controller")
        it.setattr(ops, "psi_controller", flux)
        step = abs(float(mx[1][1] - mx[1][0]))
        t_lim = lambda x: k_t * x * max((nom["u_sd"] / nom["omega"] / l_s) ** 2 - (x / p["l_m"]) ** 2, 0.0) ** 0.5
        names = w.names(e)[0]
        hit = 0
        for k in range(60):
            st = {n: 0.0 for n in names}
            st.update(psi_abs=50.0, omega=0.05 * 1.06 ** k * nom["omega"], u_sd=0.2 * lim["u_sd"], u_sq=0.1 * lim["u_sq"])
            it.call(it.getattr(ops, "reset"), [], {})
            x = norm(it.call(ops, [arr([st[n] for n in names]), arr([20.0 * lim["torque"]])], {}), it)
            ps = num(norm(it.getattr(flux, "seen"), it)[-1])
            t = num(x[1]) * k_t * 50.0
            top = sorted((t_lim(max(ps - 0.5001 * step, 0.0)), t_lim(ps), t_lim(ps + 0.5001 * step)))
            # the flux has to lie in the tabulated range for the table to answer
            if 0.05 * num(mx[1][0]) < ps < 0.999 * num(mx[1][0]):
                hit += 1
                ck.require("lookup", c.label + " torque limit", top[0] - 1e-9 <= abs(t) <= top[2] + 1e-9, "flux %g: torque limited to %g, the voltage limit allows %g" % (ps, t, t_lim(ps)))
        ck.require("lookup", c.label + " torque limit cases", hit >= 4, "%d fluxes inside the table" % hit)
        it.setattr(ops, "psi_controller", keep)
        # the flux is controlled by the magnetizing current, with anti-windup at the current limit
        tau = num(it.res(it.getattr(it.getattr(e, "physical_system"), "tau")))
        gain = [num(norm(it.getattr(keep, g), it)[0]) for g in ("p_gain", "i_gain")]
        ck.require("flux control", c.label + " gains", all(g > 0 for g in gain), "gains %s" % gain)
        i_lim = lim["i_sd"] * (1 - margin)
        ends = set()
        for k, (psi0, init, ref) in enumerate((p0, i0, r) for p0 in (0.2, 0.9, 1.02, 1.3) for i0 in (-30.0, -0.01, 0.0, 0.02, 30.0) for r in (-0.4, 0.0, 0.5)):
            st = {n: 0.0 for n in names}
            st.update(psi_abs=psi0, omega=0.1 * nom["omega"], u_sd=0.1 * lim["u_sd"])
            args = [arr([st[n] for n in names]), arr([ref * lim["torque"]])]
            it.setattr(ops, "psi_controller", flux)
            it.call(it.getattr(ops, "reset"), [], {})
            it.call(ops, list(args), {})
            err = num(norm(it.getattr(flux, "seen"), it)[-1]) - psi0
            it.setattr(ops, "psi_controller", keep)
            it.call(it.getattr(ops, "reset"), [], {})
            it.setattr(keep, "integrator", arr([init]))
            x = num(norm(it.call(ops, list(args), {}), it)[0])
            raw = gain[0] * err + gain[1] * init
            want = min(max(raw, -i_lim), i_lim)
            ends.add(want == raw)
            ck.require("flux control", "%s i_sd %d" % (c.label, k), close(x, want, scale=1e-6), "flux error %g, integrator %g: i_sd %g, the limited PI law gives %g" % (err, init, x, want))
            now = num(norm(it.getattr(keep, "integrator"), it)[0])
            more = tau * err if want == raw else 0.0
            ck.require("flux control", "%s integrator %d" % (c.label, k), close(now - init, more, scale=1e-9), "flux error %g, i_sd %s: integrator moved by %g, not %g" % (err, "free" if want == raw else "limited", now - init, more))
        ck.require("flux control", c.label + " cases", len(ends) == 2, "both limited and free cases occur")
        it.call(it.getattr(ops, "reset"), [], {})
    got = norm(it.call(ops, [vec(w, e, q), arr([T])], {}), it)
    free = tm.div(T, tm.mul(1.5 * p["p"] * p["l_m"] / l_r, psi))
    t = m(it, mot, "torque", arr([0.0, free, psi, 0.0, 0.0]))
    ck.eq("torque", c.label + " model", t, T, it=it)
    # rotating the reference keeps the sign; the free value appears wherever no limit is active
    room = [tm.lt(total(tm.power(got[0], 2), tm.power(free, 2)), (0.99 * lim["i_sd"] * (1 - margin)) ** 2)]
    small = tm.subst(got[1], {q["omega"]: 1.0, q["u_sd"]: 1.0, q["u_sq"]: 1.0}) if isinstance(got[1], tm.T) else got[1]
    ck.eq("torque", c.label, small, free, it=it, assume=room)


def has(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except AbsRaise:
        return False


VARIANTS = (("pmsm", {}, None), ("pmsm", dict(l_d=5e-4, l_q=5e-4), None), ("pmsm", dict(l_d=1e-3, l_q=3e-4), None), ("synrm", {}, None), ("eesm", {}, None), ("scim", {}, None))
# the selection from precomputed maps instead of online
VARIANTS += tuple((mo, {}, how) for mo in ("pmsm", "synrm") for how in ("analytical", "interpolate"))


def selection(ck, w):
    """Concrete operation points on a grid of speeds, voltages and torque references, tables at a quarter of their resolution."""
    it = w.it
    keep = w.coarse
    for mo, par, how in VARIANTS:
        c = Combo("Cont", "Torque", mo)
        con = c.label + "".join(" %s=%g" % q for q in sorted(par.items())) + (" " + how if how else "")
        with ck.guard("selection", con):
            # EESM: the three nested loops are coarse, the interpolation grid keeps its size
            w.coarse = keep if mo == "scim" else (lambda v: v if v >= 200 else GRID) if mo == "eesm" else (lambda v: v // 4)
            try:
                e = w.env_of(c, **(dict(motor=dict(motor_parameter=dict(par))) if par else {}))
                ctl = w.make(e, c, current_safety_margin=0.25)
                ops = it.getattr(w.parts(ctl)[1], "torque_to_current_stage")
                if how:
                    ops = it.call(ops.cls, [], {"torque_control": how})
                    m(it, ops, "tune", e, c.eid, 0.25)
            finally:
                w.coarse = keep
            mot, p, lim, names = motor_of(w, e), w.motor_parameter(e), w.limits(e), w.names(e)[0]
            top = lim["torque"]
            if has(it, ops, "mtpc"):
                for r in norm(it.getattr(ops, "mtpc"), it):
                    t = norm(m(it, mot, "torque", arr([r[1], r[2], 0.0])), it)
                    t = num(t[0] if isinstance(t, list) else t)
                    ck.require("tables", con + " mtpc row torque", close(t, num(r[0]), scale=1e-3 * top), "currents (%g, %g) give torque %g, tabulated %g" % (r[1], r[2], t, r[0]))
            if par.get("l_d", 0) > par.get("l_q", 0):
                continue  # the field weakening points of such a machine are not selected among negative i_sd alone
            n = 17 if ck.tier == "quick" else 41
            for om in np.linspace(-1, 1, 9):
                for t in np.linspace(-1, 1, n):
                    for u in (0.0, 0.5, 0.9):
                        st = {q: 0.0 for q in names}
                        st.update(omega=float(om) * lim["omega"], u_sq=u * lim["u_sq"])
                        if mo == "scim":
                            st["psi_abs"] = 0.8
                        st = arr([st[q] for q in names])
                        m(it, ops, "reset")
                        psi = norm(m(it, ops, "modulation_control", st), it) if has(it, ops, "modulation_control") else None
                        m(it, ops, "reset")
                        x = [num(q) for q in norm(it.call(ops, [st, arr([float(t) * top])], {}), it)]
                        what = "speed %.2f, torque reference %.3f, voltage %.1f of the limits: currents %s" % (om, t, u, ["%.4g" % q for q in x])
                        if not np.isfinite(x).all():
                            ck.require("selection", con + " finite", False, what)
                            continue
                        ck.require("selection", con + " finite", True)
                        tq = norm(m(it, mot, "torque", arr(x + [0.0] if mo != "scim" else [x[0], x[1], 0.8, 0.0, 0.0])), it)
                        tq = num(tq[0] if isinstance(tq, list) else tq) / top
                        what += ", torque %.3f of the limit" % tq
                        ck.require("selection", con + " sign", tq * t >= -1e-9, what)
                        ck.require("selection", con + " bound", abs(tq) <= abs(t) + ({"analytical": 0.16, "interpolate": 0.3}.get(how, 0.08)), what)
                        if mo != "scim" and om == 0 and u == 0 and abs(t) <= 0.35:
                            ck.require("selection", con + " reached", abs(tq) >= abs(t) - 0.05, what)
                        if mo != "scim" and psi is not None:
                            f = np.hypot((p["l_m"] * x[2] if mo == "eesm" else p.get("psi_p", 0.0)) + p["l_d"] * x[0], p["l_q"] * x[1])
                            ck.require("selection", con + " flux", f <= num(psi) * 1.05 + 1e-6, "%s, flux %.4g, limit %.4g" % (what, f, num(psi)))


def modulation(ck, w):
    it = w.it
    for mo in AC:
        c = Combo("Cont", "Torque", mo)
        with ck.guard("modulation", c.label):
            e = w.env_of(c)
            ops = it.getattr(w.parts(w.make(e, c))[1], "torque_to_current_stage")
            need = ("modulation_control", "a_max", "modulation_damping", "k_", "psi_low", "psi_high", "integrated", "i_gain", "tau")
            if not all(has(it, ops, q) for q in need):
                ck.undecided("modulation", c.label, "attributes of the modulation control")
                continue
            own = it.call(ops.cls, [], dict(max_modulation_level=0.875, modulation_damping=1.625))
            ck.eq("modulation", c.label + " parameters", [it.getattr(own, "a_max"), it.getattr(own, "modulation_damping")], [0.875, 1.625], it=it)
            m(it, own, "tune", e, c.eid)
            m(it, own, "reset")
            ck.eq("modulation", c.label + " tuned parameters", [it.getattr(own, "a_max"), it.getattr(own, "modulation_damping")], [0.875, 1.625], it=it)
            lim, p, names = w.limits(e), w.motor_parameter(e), w.names(e)[0]
            lo, hi, k_, gain, tau = (num(norm(it.getattr(own, q), it)) for q in ("psi_low", "psi_high", "k_", "i_gain", "tau"))
            ck.require("modulation", c.label + " range", lo < 0 < hi and gain > 0 and 0 < k_ < 1, "range [%g, %g], gain %g, level factor %g" % (lo, hi, gain, k_))
            udc = 3 ** 0.5 * lim["u_a" if "u_a" in lim else "u_sa"]
            level = num(norm(it.getattr(ops, "a_max"), it)) * udc / 2
            ck.require("modulation", c.label + " default level", 0 < level <= lim["u_a" if "u_a" in lim else "u_sa"] * (1 + 1e-9), "the default modulation level asks for %g V of %g V" % (level, udc / 3 ** 0.5))
            q = {x: 0.0 for x in names}
            om = q["omega"] = S("modulation omega %s" % mo, ("range", 0.05 * lim["omega"], lim["omega"]))
            for sign in (1, -1):
                u = S("modulation u %s" % mo, ("range", 0.0, 0.5 * udc))
                I = S("modulation I %s" % mo, ("range", -0.02, 0.02))
                q["omega"], q["u_sd"], q["u_sq"] = tm.mul(sign, om), tm.mul(0.6, u), tm.mul(-0.8 * sign, u)
                it.setattr(own, "integrated", I)
                if has(it, own, "limited"):
                    it.setattr(own, "limited", False)
                got = norm(m(it, own, "modulation_control", arr([q[x] for x in names])), it)
                after = norm(it.getattr(own, "integrated"), it)
                a = tm.mul(2.0 / udc, u)
                room = tm.mul(tau, sub(k_ * 0.875, a))
                free = tm.mul(tm.div(gain * udc / (2 * p["p"]), om), total(room, I))
                want = total(tm.div(udc / 3 ** 0.5 / p["p"], om), tm.minimum(tm.maximum(free, lo), hi))
                calm = [tm.lt(a, 1.1 * 0.875)]
                ck.eq("modulation", "%s speed %+d" % (c.label, sign), got, want, it=it, assume=calm)
                inside = calm + [tm.lt(lo, free), tm.lt(free, hi)]
                ck.eq("modulation", "%s speed %+d integrator" % (c.label, sign), after, total(I, room), it=it, assume=inside)
