"""Limits, nominal values and state space bounds, per state name."""
import itertools

from .. import terms as tm
from ..check import norm
from ..interp import arr
from ..rig import *
from ..systems import *

TABLES = (("limits", "limit_values"), ("nominal_values", "nominal_values"))


def states(name):
    return ["omega", "torque"] + io_names(name) + ([] if MOTORS[name]["system"] == "DcMotorSystem" else ["epsilon"])


def user(names, base=900):
    """Pairwise different user values in a random looking order, symbolic inside disjoint ranges."""
    return {n: S("user%d_%s_%d" % (base, n, k), ("range", base + 10 * k, base + 10 * k + 9)) for k, n in enumerate(names)}


def values(it, o, what, names):
    tab = it.res(it.getattr(o, what))
    return {n: wrap1(norm(tab[n], it)) if n in tab else None for n in names}


def wrap1(v):
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    return v


def by_name(it, rg, what):
    names = it.iterate(it.getattr(rg.sys, "state_names"))
    v = norm(it.getattr(rg.sys, what), it)
    return dict(zip(names, v)), names


def run(ck):
    ck.rule("user-value", "a limit or nominal value given for a state name is the one the motor reports for that name, whatever else is given")
    ck.rule("own-name", "each state's limit and nominal value in the system is the smaller of the motor's and the load's value for its own name; the supply voltage's is the supply's nominal voltage")
    ck.rule("derived", "values derived for the three-phase quantities follow the given phase values (currents the current, voltages half the supply voltage); an undefined nominal value is the limit")
    ck.rule("complete", "every state has a positive finite limit and nominal value, for all parameters")
    ck.rule("torque-limit", "a derived torque limit is not smaller than any torque of a current of nominal magnitude and can be produced by a current of limit magnitude")
    ck.rule("bounds", "lower bounds of the normalised state space are -1 exactly for the directions the converter (and the machine) allow, 0 otherwise; upper bounds are 1")
    ck.rule("independent", "building motors with other values does not change the values of a motor built with defaults")
    for name in MOTORS:
        spec = MOTORS[name]
        dc = spec["system"] == "DcMotorSystem"
        sysc = "%s(%s)" % (spec["system"], name)
        names = [n for n in states(name) if n != "epsilon"]
        # single values and all together
        sets = [[n] for n in names] + [names] + [names[::2], names[1::2]]
        for what, arg in TABLES:
            for sub in sets:
                lab = ", ".join(sub) if len(sub) < 3 else "%d names" % len(sub)
                cons = "%s %s {%s}" % (sysc, what, lab)
                it = ck.interp()
                with ck.guard("user-value", cons):
                    uv = user(sub)
                    mo = make_motor(it, name, {}, **{arg: dict(uv)})
                    got = values(it, mo, what, sub)
                    for n in sub:
                        ck.eq("user-value", "%s: %s" % (cons, n), got[n], uv[n], it=it)
                    rg = Rig(it, name, motor_obj=mo)
                    sv, sn = by_name(it, rg, "limits" if what == "limits" else "nominal_state")
                    for n in sub:
                        if n in sv:
                            ck.eq("user-value", "%s: %s in the system" % (cons, n), sv[n], uv[n], it=it)
        # system table by name, with load limits below and above
        for lab in ("motor only", "load smaller", "load larger"):
            it = ck.interp()
            cons = "%s %s" % (sysc, lab)
            with ck.guard("own-name", cons):
                lim, nom = user(names), user(names, 400)
                mo = make_motor(it, name, {}, limit_values=dict(lim), nominal_values=dict(nom))
                ll = {} if lab == "motor only" else {"omega": S("load_omega " + lab, ("range", 50, 60) if lab == "load smaller" else ("range", 5000, 6000))}
                lo = it.call(ck.cls(it, "PolynomialStaticLoad"), [], dict(limits=dict(ll)) if ll else {})
                if ll:
                    it.res(it.getattr(lo, "nominal_values")).update({"omega": ll["omega"] / 2})
                rg = Rig(it, name, motor_obj=mo, load=lo)
                sv, sn = by_name(it, rg, "limits")
                nv, _ = by_name(it, rg, "nominal_state")
                for n in sn:
                    if n == "u_sup":
                        wl = wn = rg.u_nom
                    elif n == "epsilon":
                        wl = wn = PI
                    else:
                        wl, wn = lim[n], nom[n]
                        if n == "omega" and lab == "load smaller":
                            wl, wn = ll["omega"], ll["omega"] / 2
                    ck.eq("own-name", "%s limit %s" % (cons, n), sv[n], wl, it=it)
                    ck.eq("own-name", "%s nominal %s" % (cons, n), nv[n], wn, it=it)
        # derived values of three-phase quantities from i and u
        if not dc:
            it = ck.interp()
            with ck.guard("derived", sysc):
                L = {"i": S("I_lim", ("range", 50, 60)), "u": S("U_lim", ("range", 500, 600))}
                N = {"i": S("I_nom", ("range", 30, 40)), "u": S("U_nom", ("range", 300, 400))}
                own = {"i_e", "u_e"} if name.startswith("Ext") else set()
                mo = make_motor(it, name, {}, limit_values=dict(L), nominal_values=dict(N))
                for what, src in (("limits", L), ("nominal_values", N)):
                    io = [n for n in io_names(name) if n not in own]
                    for n, v in values(it, mo, what, io).items():
                        want = src["i"] if n[0] == "i" else src["u"] * 0.5
                        ck.eq("derived", "%s %s %s" % (sysc, what, n), v, want, it=it)
        # a nominal value that is not defined (zero) is completed by the state's limit
        for n in ["torque", "omega"] + (names[2:] if dc else []):
            it = ck.interp()
            cons = "%s undefined nominal value %s" % (sysc, n)
            with ck.guard("derived", cons):
                lim = user([n])
                mo = make_motor(it, name, {}, limit_values=dict(lim), nominal_values={n: 0.0})
                ck.eq("derived", cons, values(it, mo, "nominal_values", [n])[n], lim[n], it=it)
        undefined(ck, name, sysc)
        # completeness for symbolic parameters
        for lab, par in (("default parameters", {}), ("symbolic parameters", None)):
            it = ck.interp()
            cons = "%s %s" % (sysc, lab)
            with ck.guard("complete", cons):
                p = motor_params(name) if par is None else {}
                if p and "l_q" in p:
                    p["l_q"] = p["l_d"] * S("saliency", ("range", 0.3, 0.9))
                mo = make_motor(it, name, p or {})
                rg = Rig(it, name, motor_obj=mo)
                for what in ("limits", "nominal_state"):
                    sv, sn = by_name(it, rg, what)
                    for n in sn:
                        v = wrap1(sv[n])
                        ck.holds("complete", "%s %s %s" % (cons, what, n), tm.and_(tm.lt(0, v), tm.lt(v, 1e300)), "value %s" % tm.show(v))
        if dc:
            dc_torque(ck, name, sysc)
        torque_limit(ck, name, sysc)
        bounds(ck, name, sysc)
        it = ck.interp()
        with ck.guard("independent", sysc):
            a = make_motor(it, name, {})
            before = {w: values(it, a, w, names) for w, _ in TABLES}
            make_motor(it, name, motor_params(name), limit_values=user(names), nominal_values=user(names, 300))
            b = make_motor(it, name, {})
            for w, _ in TABLES:
                for n in names:
                    ck.eq("independent", "%s %s %s" % (sysc, w, n), values(it, b, w, [n])[n], before[w][n], it=it)
                    ck.eq("independent", "%s %s %s of the earlier one" % (sysc, w, n), values(it, a, w, [n])[n], before[w][n], it=it)
    ck.min_decided = 400


RESISTANCE = {"DcPermanentlyExcitedMotor": dict(i=("r_a",)), "DcSeriesMotor": dict(i=("r_a", "r_e")),
              "DcShuntMotor": dict(i_a=("r_a",), i_e=("r_e",)), "DcExternallyExcitedMotor": dict(i_a=("r_a",), i_e=("r_e",))}


def undefined(ck, name, sysc):
    """Undefined (zero) current and torque limits and nominal values are completed."""
    spec = MOTORS[name]
    dc = spec["system"] == "DcMotorSystem"
    it = ck.interp()
    cons = "%s undefined currents and torque" % sysc
    with ck.guard("derived", cons):
        p = motor_params(name)
        if "l_q" in p:
            p["l_q"] = p["l_d"] * S("saliency", ("range", 0.3, 0.9))
        cur = (spec["i"] if dc else []) + ["i"]
        zero = {n: 0.0 for n in cur}
        if name.startswith("Ext"):
            zero["i_e"] = 0.0
        U = S("U_lim", ("range", 500, 600))
        mo = make_motor(it, name, p, limit_values=dict(zero, u=U, torque=0.0), nominal_values=dict(zero, torque=0.0))
        names = [n for n in io_names(name) if n[0] == "i"]
        lim, nom = values(it, mo, "limits", names + ["torque"]), values(it, mo, "nominal_values", names + ["torque"])
        for n in names + ["torque"]:
            ck.holds("derived", "%s limit %s" % (cons, n), tm.and_(tm.lt(0, lim[n]), tm.lt(lim[n], 1e300)), "limit %s" % tm.show(lim[n])[:80])
            ck.eq("derived", "%s nominal value %s" % (cons, n), nom[n], lim[n], it=it)
        for n in names:
            if dc:
                r = 0
                for q in RESISTANCE[name][n]:
                    r = r + p[q]
                ck.eq("derived", "%s limit %s is the current at standstill" % (cons, n), lim[n], U / r, it=it)
            elif name != "DoublyFedInductionMotor" and n != "i_e":
                ck.eq("derived", "%s limit %s is the current at standstill" % (cons, n), lim[n], U * 0.5 / p["r_s"], it=it)


def dc_torque(ck, name, sysc):
    """The derived torque limit of a DC machine is its torque at the current limits, whatever the nominal currents are."""
    it = ck.interp()
    cons = "%s torque at the current limits" % sysc
    with ck.guard("torque-limit", cons):
        cur = MOTORS[name]["i"]
        I = {n: S("I_lim_" + n, ("range", 60, 90)) for n in cur}
        nom = {n: v * S("I_rel_" + n, ("range", 0.3, 0.7)) for n, v in I.items()}
        mo = make_motor(it, name, motor_params(name), limit_values=dict(I, torque=0.0), nominal_values=dict(nom, torque=0.0))
        lim = values(it, mo, "limits", ["torque"])["torque"]
        t = wrap1(norm(m(it, mo, "torque", arr([I[n] for n in cur])), it))
        ck.eq("torque-limit", cons, wrap1(norm(lim, it)), t, it=it)


def torque_limit(ck, name, sysc):
    """Only machines whose default torque limit is derived (zero in the defaults)."""
    spec = MOTORS[name]
    for lab in ("l_d > l_q", "l_d < l_q", "l_d = l_q"):
        if spec["system"] == "DcMotorSystem" or spec["par"].find("l_d") < 0 and lab != "l_d > l_q":
            continue
        if name == "SynchronousReluctanceMotor" and lab != "l_d > l_q":
            continue  # the axes of a reluctance machine are chosen such that l_d is the larger one
        it = ck.interp()
        cons = "%s%s" % (sysc, " " + lab if "l_d" in spec["par"] else "")
        with ck.guard("torque-limit", cons):
            p = motor_params(name)
            if "l_d" in p:
                p["l_q"] = p["l_d"] * (S("saliency_below", ("range", 0.2, 0.9)) if lab == "l_d > l_q" else S("saliency_above", ("range", 1.1, 5)) if lab == "l_d < l_q" else 1)
            mo = make_motor(it, name, p)
            lim = wrap1(norm(it.res(it.getattr(mo, "limits"))["torque"], it))
            nomv = it.res(it.getattr(mo, "nominal_values"))
            inom = wrap1(norm(nomv.get("i"), it))
            th = S("theta", "angle")
            c, s = tm.fn("cos", th), tm.fn("sin", th)
            if spec["system"] in ("SynchronousMotorSystem", "ExternallyExcitedSynchronousMotorSystem"):
                x = [inom * c, inom * s]
                if len(spec["i"]) == 3:
                    x.append(wrap1(norm(it.res(it.getattr(mo, "limits"))["i_e"], it)))
                x.append(0.0)
            else:
                # field-oriented steady state: rotor flux l_m * i_sd along the d axis
                x = [inom * c, inom * s, p["l_m"] * inom * c, 0.0, 0.0]
            tq = norm(m(it, mo, "torque", arr(x)), it)
            tq = wrap1(tq)
            ck.holds("torque-limit", cons, tm.le(tq, lim * (1 + 1e-9) + 1e-9), "a torque at nominal current magnitude exceeds the derived limit %s" % tm.show(lim)[:80])
            # some current of limit magnitude produces (nearly) that torque
            ilim = wrap1(norm(it.res(it.getattr(mo, "limits")).get("i"), it))
            best = None
            for k in range(120):
                cc, ss = np.cos(np.pi * k / 60), np.sin(np.pi * k / 60)
                y = [ilim * cc, ilim * ss] + x[2:] if spec["system"] in ("SynchronousMotorSystem", "ExternallyExcitedSynchronousMotorSystem") else [ilim * cc, ilim * ss, p["l_m"] * ilim * cc, 0.0, 0.0]
                t = wrap1(norm(m(it, mo, "torque", arr(y)), it))
                best = t if best is None else tm.maximum(best, t)
            ck.holds("torque-limit", cons + " reachable", tm.le(lim, best * 1.01 + 1e-9), "no current of limit magnitude produces the derived limit %s" % tm.show(lim)[:80])
            ck.holds("torque-limit", cons + " positive", tm.lt(0, lim), "torque limit not positive")


def bounds(ck, name, sysc):
    spec = MOTORS[name]
    dc = spec["system"] == "DcMotorSystem"
    n_u = len(spec["u"])
    ins = [(-1.0, 0.0)] * (2 * n_u) if dc else [(-1.0,)]
    for combo in itertools.product(*ins):
        it = ck.interp()
        cons = "%s directions %s" % (sysc, ",".join("%d" % c for c in combo)) if dc else sysc
        with ck.guard("bounds", cons):
            mo = make_motor(it, name, {})
            rg0 = Rig(it, name, motor_obj=mo)
            if dc:
                ulow, ilow = list(combo[:n_u]), list(combo[n_u:])
                conv = rg0.converter
                conv.attrs["voltages"] = box(it, ulow, [1.0] * n_u)
                conv.attrs["currents"] = box(it, ilow, [1.0] * n_u)
                sup = rg0.supply
                rg = it.call(rg0.cls, [], dict(converter=conv, motor=mo, load=rg0.load, supply=sup, ode_solver=rg0.solver, tau=rg0.tau))
            else:
                ulow, ilow = [-1.0], [-1.0]
                rg = rg0.sys
            sp = it.getattr(rg, "state_space")
            names = it.iterate(it.getattr(rg, "state_names"))
            low, high = norm(it.getattr(sp, "low"), it), norm(it.getattr(sp, "high"), it)
            want = {}
            if dc:
                for n, v in zip(spec["u"], ulow):
                    want[n] = v
                for k, n in enumerate(spec["i"]):
                    want[n] = ilow[min(k, len(ilow) - 1)]
                # torque and speed: negative only if the machine can produce it with these directions
                want["torque"] = 0.0 if name == "DcSeriesMotor" else min(ilow)
                want["omega"] = 0.0 if name in ("DcSeriesMotor", "DcShuntMotor") else min(ulow)
            else:
                want = {n: -1.0 for n in names}
            want["u_sup"] = 0.0
            for n, lo, hi in zip(names, low, high):
                ck.eq("bounds", "%s lower %s" % (cons, n), lo, want[n], it=it)
                ck.eq("bounds", "%s upper %s" % (cons, n), hi, 1.0, it=it)
