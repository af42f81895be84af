"""Clipping stages, anti-windup and base controllers of the controller package."""
from .. import terms as tm
from ..check import norm
from ..corpus import *
from ..gcrig import *

VOLT = {"series": ["u"], "shunt": ["u"], "permex": ["u"], "extex": ["u_a", "u_e"], "pmsm": ["u_sd", "u_sq"], "synrm": ["u_sd", "u_sq"], "scim": ["u_sd", "u_sq"], "eesm": ["u_sd", "u_sq", "u_e"]}
CURR = {"series": ["i"], "shunt": ["i_a"], "permex": ["i"], "extex": ["i_a", "i_e"], "pmsm": ["i_sd", "i_sq"], "synrm": ["i_sd", "i_sq"], "scim": ["i_sd", "i_sq"], "eesm": ["i_sd", "i_sq", "i_e"]}
BIG = ("range", -1e4, 1e4)


def clip_model(motor, ref, lim, lo, hi, margin):
    """Documented limitation: AC stator vectors are shortened to the (elliptic) limit, all others limited component-wise."""
    n2 = 2 if motor in AC and len(ref) >= 2 else 0
    out = []
    if n2:
        length = sqrt(total(*[tm.power(tm.div(r, l), 2) for r, l in zip(ref[:2], lim)]))
        scale = tm.ite(tm.le(length, 1 - margin), 1.0, tm.div(1 - margin, length))
        out += [tm.mul(r, scale) for r in ref[:2]]
    for k in range(n2, len(ref)):
        out.append(tm.minimum(tm.maximum(ref[k], lo[k] * lim[k] * (1 - margin)), hi[k] * lim[k] * (1 - margin)))
    return out


def space(w, e, names):
    it = w.it
    st, _ = w.names(e)
    sp = it.res(it.getitem(it.getattr(e, "observation_space"), 0))
    lo, hi = norm(sp.attrs["low"], it), norm(sp.attrs["high"], it)
    lim = w.limits(e)
    k = [st.index(x) for x in names]
    return [lim[x] for x in names], [float(lo[i]) for i in k], [float(hi[i]) for i in k]


def run(ck):
    ck.rule("clip", "a clipping stage limits its input to the admissible range of its quantity (component-wise, AC vectors by length)")
    ck.rule("difference", "the reported difference is input minus output, so limitation is reported exactly where the input was changed")
    ck.rule("integrate", "a control call adds sampling time times control error to the integrators of components that are not limited and nothing to the others")
    ck.rule("law", "the base controllers implement their documented control law")
    ck.rule("action-range", "continuous actions lie in the action space for all states and references")
    ck.rule("reset-clip", "after a reset no limitation is reported")
    ck.rule("cascade", "each controller of the cascade hands the limited output of its own stages to the next one")
    ck.rule("range", "the reported range of a clipping stage and the reported maximum current references are the limits it enforces")
    ck.rule("three-point", "a tuned three point controller chooses between both ends of the admissible range of its quantity and zero, one percent of the range around the reference being tolerated")
    w = GcWorld(ck)
    it = w.it
    for c in combos(acts=("Cont",)):
        margin = 0.35
        with ck.guard("clip", c.label):
            e = w.env_of(c)
            k = {} if c.task == "Current" else dict(current_safety_margin=margin)
            ctl = w.make(e, c, **k)
            speed, torque, cur = w.parts(ctl)
            todo = [("voltage", cur, VOLT[c.motor], 0.0)]
            if torque is not None:
                todo.append(("current", torque, CURR[c.motor], margin))
            if speed is not None:
                todo.append(("torque", speed, ["torque"], 0.0))
            for what, o, names, mg in todo:
                con = "%s %s" % (c.label, what)
                with ck.guard("clip", con):
                    st = it.getattr(o, "clipping_stage")
                    ref = [S("%s big" % q, BIG) for q in names]
                    lim, lo, hi = space(w, e, names)
                    got = norm(it.call(st, [w.state(e, "s", 1e3), arr(list(ref))], {}), it)
                    want = clip_model(c.motor, ref, lim, lo, hi, mg)
                    ck.eq("clip", con, got, want, it=it)
                    diff = it.getattr(st, "clipping_difference")
                    ck.eq("difference", con, diff, [sub(r, x) for r, x in zip(ref, want)], it=it)
                    flags = norm(it.getattr(st, "clipped"), it)
                    ck.eq("difference", con + " flags", [tm.ite(f, 1, 0) for f in flags], [tm.ite(tm.eq(sub(r, x), 0), 0, 1) for r, x in zip(ref, want)], it=it)
                    rng = norm(it.getattr(st, "action_range"), it)
                    skip = 2 if c.motor == "eesm" and len(names) == 3 else 0  # the elliptic part of a combined stage has no range of its own
                    box = [[l * x * (1 - mg) for l, x in zip(lim, b)] for b in ((lo, hi) if c.motor in DC or len(names) == 1 else ([-1.0] * 2 + lo[2:], [1.0] * 2 + hi[2:]))]
                    ck.eq("range", con, [r[skip:] for r in rng], [b[skip:] for b in box], it=it)
                    if what == "current":
                        mx = it.res(it.getattr(o, "maximum_reference"))
                        want = {q: [box[0][k], box[1][k]] for k, q in enumerate(names) if q in ("i", "i_a", "i_e")}
                        ck.require("range", con + " names", sorted(mx) == sorted(want), "maximum references for %s" % sorted(mx))
                        for q in set(mx) & set(want):
                            ck.eq("range", "%s maximum %s" % (con, q), norm(mx[q], it), want[q], it=it)
                    m(it, st, "reset")
                    ck.eq("reset-clip", con, it.getattr(st, "clipping_difference"), [0.0] * len(ref), it=it)
    # ------------------------------------------------------------ anti-windup
    for mo in MOTOR_IDS:
        for b in ("PI", "PID"):
            c = Combo("Cont", "Current", mo)
            con = "%s base %s" % (c.label, b)
            with ck.guard("integrate", con):
                e = w.env_of(c)
                tau = it.res(it.getattr(it.getattr(e, "physical_system"), "tau"))
                cur = w.parts(w.make(e, c, base_current_controller=b))[2]
                base = it.getattr(cur, "current_base_controller")
                integ(ck, w, e, con, cur, base, CURR[mo], tau, lambda s, r: m(it, cur, "current_control", s, r))
            c = Combo("Cont", "Speed", mo)
            con = "%s base %s" % (c.label, b)
            with ck.guard("integrate", con):
                e = w.env_of(c)
                tau = it.res(it.getattr(it.getattr(e, "physical_system"), "tau"))
                sp = w.parts(w.make(e, c, base_speed_controller=b))[0]
                base = it.getattr(sp, "speed_control_stage")
                integ(ck, w, e, con, sp, base, ["omega"], tau, lambda s, r: m(it, sp, "speed_control", s, r))
    laws(ck, w)
    cascade(ck, w)
    three_point(ck, w)
    # ------------------------------------------------------------ actions stay in the action space
    for c in combos(acts=("Cont",), tasks=("Current", "Torque") if ck.tier == "quick" else tuple(TASKS)):
        with ck.guard("action-range", c.label):
            e = w.env_of(c)
            ctl, twin = w.make(e, c), w.make(e, c)
            sp = it.res(it.getattr(e, "action_space"))
            lo, hi = norm(sp.attrs["low"], it), norm(sp.attrs["high"], it)
            n3 = 3 if c.motor in AC else 0
            for k in (1, 2):
                x = norm(m(it, ctl, "control", w.state(e, "s%d" % k), w.reference(e, "r%d" % k)), it)
                x = x if isinstance(x, list) else [x]
                for j in range(n3, len(x)):
                    ck.within("action-range", "%s action %d of call %d" % (c.label, j, k), x[j], float(lo[j]), float(hi[j]), "actions")
                if n3 and k == 1 and c.task == "Current":
                    # the phase actions are an amplitude-preserving image of the limited vector of the stages in front of the limitation
                    lim = w.limits(e)
                    names, refs = w.names(e)
                    la = [lim[q] for q in names if q in ("u_a", "u_b", "u_c", "u_sa", "u_sb", "u_sc")]
                    ck.require("action-range", c.label + " limits", len(la) == 3 and max(lim["u_sd"], lim["u_sq"]) <= min(la) and min(lo) <= -1 and max(hi) >= 1, "dq limits %s exceed phase limits %s" % ((lim["u_sd"], lim["u_sq"]), la))
                    _, _, cur = w.parts(twin)
                    st = arr([tm.mul(q, lim[nm]) for q, nm in zip(w.state(e, "s1"), names)])
                    rf = arr([tm.mul(q, lim[nm]) for q, nm in zip(w.reference(e, "r1"), refs)])
                    v = it.call(it.getattr(cur, "current_base_controller"), [st, rf], {})
                    v = norm(it.call(it.getattr(cur, "emf_feedforward"), [st, v], {}), it)
                    u = clip_model(c.motor, v, *space(w, e, VOLT[c.motor]), 0.0)
                    length = total(*[tm.power(tm.mul(q, l), 2) for q, l in zip(x[:3], la)])
                    ck.eq("action-range", c.label + " length", tm.mul(2.0 / 3, length), total(*[tm.power(q, 2) for q in u[:2]]), it=it)
    ck.min_decided = 200


def integ(ck, w, e, con, owner, base, states, tau, control):
    it = w.it
    names, _ = w.names(e)
    init = [S("I %s" % q, ("range", -50.0, 50.0)) for q in states]
    it.setattr(base, "integrator", arr(list(init)))
    st = arr([S("phys %s" % q, ("range", -300.0, 300.0)) for q in names])
    rf = arr([S("phys ref %s" % q, ("range", -300.0, 300.0)) for q in states])
    control(st, rf)
    got = norm(it.getattr(base, "integrator"), it)
    diff = norm(it.getattr(it.getattr(owner, "clipping_stage"), "clipping_difference"), it)
    ck.require("integrate", con + " components", len(got) == len(states) == len(diff), "%d integrators, %d limitation flags for %s" % (len(got), len(diff), states))
    for k, q in enumerate(states):
        err = tm.mul(tau, sub(rf[k], st[names.index(q)]))
        free = tm.eq(diff[k], 0)
        for case, val in (("not limited", True), ("limited", False)):
            g = cofactor(sub(got[k], init[k]), free, val)
            ck.eq("integrate", "%s %s %s" % (con, q, case), g, err if val else 0.0, it=it)


def cofactor(t, c, val):
    """t under the assumption that condition c is val."""
    if c is True or c is False:
        return t
    return tm.subst(t, {c: val, tm.not_(c): not val})


def laws(ck, w):
    it = w.it
    n = 2
    idx = [3, 1]
    st = [arr([S("x%d %d" % (j, k)) for k in range(5)]) for j in range(3)]
    rf = [arr([S("w%d %d" % (j, k)) for k in range(n)]) for j in range(3)]
    p, i, d, h = ([S("%s gain %d" % (q, k), "pos") for k in range(n)] for q in "pidh")
    q = [S("q %d" % k) for k in range(n)]
    tau = S("tau", "pos")
    err = [[sub(rf[j][k], st[j][idx[k]]) for k in range(n)] for j in range(3)]
    for name in ("PController", "IController", "PIController", "PIDController", "ThreePointController"):
        with ck.guard("law", name):
            b = w.new(name, "CC")
            if name == "ThreePointController":
                lo, mid, hi = ([S("%s %d" % (x, k)) for k in range(n)] for x in ("low", "idle", "high"))
                for a, v in (("referenced_state_indices", list(idx)), ("hysteresis", h), ("low_action", lo), ("idle_action", mid), ("high_action", hi)):
                    it.setattr(b, a, arr(list(v)))
                got = norm(it.call(b, [st[0], rf[0]], {}), it)
                want = [tm.ite(tm.lt(rf[0][k], sub(st[0][idx[k]], h[k])), lo[k], tm.ite(tm.lt(total(st[0][idx[k]], h[k]), rf[0][k]), hi[k], mid[k])) for k in range(n)]
                ck.eq("law", name, got, want, it=it)
                continue
            it.setattr(b, "state_indices", list(idx))
            if name in ("PController", "PIController", "PIDController"):
                it.setattr(b, "p_gain", arr(list(p)))
            if name != "PController":
                it.setattr(b, "i_gain", arr(list(i)))
            if name == "PIDController":
                it.setattr(b, "d_gain", arr(list(d)))
                it.setattr(b, "tau", tau)
            m(it, b, "reset")
            if name == "PIDController":
                it.setattr(b, "tau", tau)
            if name != "PController":
                it.setattr(b, "integrator", arr(list(q)))
            for j in range(3):
                got = norm(it.call(b, [st[j], rf[j]], {}), it)
                want = []
                for k in range(n):
                    terms = []
                    if name != "IController":
                        terms.append(tm.mul(p[k], err[j][k]))
                    if name != "PController":
                        terms.append(tm.mul(i[k], q[k]))
                    if name == "PIDController":
                        last = err[j - 1][k] if j else 0.0
                        terms.append(tm.div(tm.mul(d[k], sub(err[j][k], last)), tau))
                    want.append(total(*terms))
                ck.eq("law", "%s call %d" % (name, j + 1), got, want, it=it)


def cascade(ck, w):
    it = w.it
    for c in combos(acts=("Cont",), tasks=("Torque", "Speed")):
        for b in ("PI", "ThreePoint") if c.task == "Speed" else ("PI",):
            con = c.label if b == "PI" else "%s base %s" % (c.label, b)
            with ck.guard("cascade", con):
                e = w.env_of(c)
                k = dict(base_speed_controller=b) if c.task == "Speed" else {}
                A, B = w.make(e, c, **k), w.make(e, c, **k)
                (sa, ta, ca), (sb, tb, cb) = w.parts(A), w.parts(B)
                lim = w.limits(e)
                names, refs = w.names(e)
                for call in (1, 2):
                    st = arr([S("x%d %s [%g]" % (call, q, lim[q]), ("range", -lim[q], lim[q])) for q in names])
                    if c.motor == "scim":
                        st[names.index("psi_abs")] = S("x%d psi" % call, ("range", 0.6, 1.5))
                    top = 2 * lim[refs[0]]
                    rf = arr([S("x%d ref %s [%g]" % (call, refs[0], top), ("range", -top, top))])
                    tq = rf
                    if sa is not None:
                        raw = it.call(it.getattr(sb, "speed_control_stage"), [st, rf], {})
                        tq = it.call(it.getattr(sb, "clipping_stage"), [st, raw], {})
                        # the integrator of the second one is moved by its own call
                        mine = m(it, sb, "speed_control", st, rf)
                        ck.eq("cascade", "%s torque reference %d" % (con, call), mine, tq, it=it)
                        ck.eq("cascade", "%s torque reference %d reported" % (con, call), it.getattr(sb, "torque_reference"), tq, it=it)
                    cur = m(it, tb, "torque_control", st, tq)
                    cur = it.call(it.getattr(tb, "clipping_stage"), [st, cur], {})
                    volt = m(it, cb, "current_control", st, cur)
                    got = m(it, sa if sa is not None else ta, "control", st, rf)
                    ck.eq("cascade", "%s voltage %d" % (con, call), got, norm(volt, it), it=it)
                    ck.eq("cascade", "%s current reference %d" % (con, call), it.getattr(ta, "current_reference"), norm(cur, it), it=it)


def three_point(ck, w):
    it = w.it
    for mo in MOTOR_IDS:
        for task, states in (("Current", CURR[mo]), ("Speed", ["omega"])):
            c = Combo("Cont", task, mo)
            con = "%s base ThreePoint" % c.label
            with ck.guard("three-point", con):
                e = w.env_of(c)
                names, _ = w.names(e)
                if task == "Current":
                    b, out = it.getattr(w.parts(w.make(e, c, base_current_controller="ThreePoint"))[2], "current_base_controller"), VOLT[mo]
                else:
                    b, out = it.getattr(w.parts(w.make(e, c, base_speed_controller="ThreePoint"))[0], "speed_control_stage"), ["torque"]
                lim, lo, hi = space(w, e, out)
                if len(states) != len(out):
                    ck.undecided("three-point", con, "%d states for %d outputs" % (len(states), len(out)))
                    continue
                st = arr([S("x %s" % q, BIG) for q in names])
                rf = arr([S("ref %s" % q, BIG) for q in states])
                got = norm(it.call(b, [st, rf], {}), it)
                want = []
                for k, q in enumerate(states):
                    x, tol = st[names.index(q)], 0.01 * lim[k] * (hi[k] - lo[k])
                    want.append(tm.ite(tm.lt(rf[k], total(x, -tol)), lo[k] * lim[k], tm.ite(tm.lt(total(x, tol), rf[k]), hi[k] * lim[k], 0.0)))
                ck.eq("three-point", con, got, want, it=it)
