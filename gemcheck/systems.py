"""What the documented state names of each drive system mean, as functions of the ODE state and the converter voltages."""
from . import terms as tm
from .rig import *

STATOR = {
    "SynchronousMotorSystem": ("i_a i_b i_c", "i_sd i_sq", "u_a u_b u_c", "u_sd u_sq"),
    "ExternallyExcitedSynchronousMotorSystem": ("i_a i_b i_c", "i_sd i_sq", "u_a u_b u_c", "u_sd u_sq"),
    "SquirrelCageInductionMotorSystem": ("i_sa i_sb i_sc", "i_sd i_sq", "u_sa u_sb u_sc", "u_sd u_sq"),
    "DoublyFedInductionMotorSystem": ("i_sa i_sb i_sc", "i_sd i_sq", "u_sa u_sb u_sc", "u_sd u_sq"),
}


def put(d, names, vals):
    for n, v in zip(names.split(), vals):
        d[n] = v


def wrapped(x):
    """An angle folded into (-pi, pi], as reported by the systems."""
    e = x % (2 * PI)
    return tm.ite(tm.lt(PI, e), e - 2 * PI, e)


def field_angle(y):
    return tm.fn("atan2", y[4], y[3])


def rotor_current(y, par):
    lr = par["l_m"] + par["l_sigr"]
    return [(y[3] - par["l_m"] * y[1]) / lr, (y[4] - par["l_m"] * y[2]) / lr]


def terminal_currents(name, y, par):
    """Currents flowing out of the converter for ODE state y = [omega, motor states]."""
    spec = MOTORS[name]
    x = y[1:]
    sysn = spec["system"]
    if sysn == "DcMotorSystem":
        return [x[0] + x[1]] if name == "DcShuntMotor" else x[: len(spec["i"])]
    if sysn == "SynchronousMotorSystem":
        return dq_abc(x[:2], x[2])
    if sysn == "ExternallyExcitedSynchronousMotorSystem":
        return dq_abc(x[:2], x[3]) + [x[2]]
    if sysn == "SquirrelCageInductionMotorSystem":
        return clark_inv(*x[:2])
    return clark_inv(*x[:2]) + clark_inv(*park(*rotor_current(y, par), x[4]))


def motor_input(name, y, v):
    """Motor input (argument of the ODE) for converter voltages v [V] applied at ODE state y."""
    sysn = MOTORS[name]["system"]
    if sysn == "DcMotorSystem":
        return v
    if sysn == "SynchronousMotorSystem":
        return abc_dq(v, y[3])
    if sysn == "ExternallyExcitedSynchronousMotorSystem":
        return abc_dq(v[:3], y[4]) + [v[3]]
    if sysn == "SquirrelCageInductionMotorSystem":
        return clark(*v)
    return [clark(*v[:3]), rot(*clark(*v[3:]), y[5])]


def quantities(name, y, v, us, torque, y0, par):
    """state name -> physical quantity; y: ODE state at the end, y0: ODE state at which the voltages v were applied."""
    spec = MOTORS[name]
    sysn = spec["system"]
    d = {"omega": y[0], "torque": torque}
    for k, u in enumerate(us):
        d["u_sup" if k == 0 else "u_sup_%d" % k] = u
    x = y[1:]
    if sysn == "DcMotorSystem":
        put(d, " ".join(spec["i"]), x)
        put(d, " ".join(spec["u"]), v)
        return d
    ia, idq, ua, udq = STATOR[sysn]
    d["epsilon"] = wrapped(x[-1])
    if sysn in ("SynchronousMotorSystem", "ExternallyExcitedSynchronousMotorSystem"):
        put(d, idq, x[:2])
        put(d, ia, dq_abc(x[:2], x[-1]))
        put(d, ua, v[:3])
        put(d, udq, abc_dq(v[:3], y0[-1]))
        if len(x) == 4:
            d["i_e"], d["u_e"] = x[2], v[3]
        return d
    f, f0 = field_angle(y), field_angle(y0)
    put(d, ia, clark_inv(*x[:2]))
    put(d, idq, park(*x[:2], f))
    put(d, ua, v[:3])
    put(d, udq, abc_dq(v[:3], f0))
    if sysn == "DoublyFedInductionMotorSystem":
        ir = rotor_current(y, par)
        put(d, "i_ra i_rb i_rc", clark_inv(*park(*ir, x[4])))
        put(d, "i_rd i_rq", park(*ir, f))
        put(d, "u_ra u_rb u_rc", v[3:])
        put(d, "u_rd u_rq", abc_dq(v[3:], f0 - y0[5]))
    return d


def names_of(name):
    sysn = MOTORS[name]["system"]
    if sysn == "DcMotorSystem":
        return ["omega", "torque"] + MOTORS[name]["i"] + MOTORS[name]["u"] + ["u_sup"]
    return None


def io_names(name):
    """All current and voltage names of the machine that may have limits."""
    sysn = MOTORS[name]["system"]
    if sysn == "DcMotorSystem":
        return MOTORS[name]["i"] + MOTORS[name]["u"]
    out = []
    for g in STATOR[sysn]:
        out += g.split()
    if sysn == "ExternallyExcitedSynchronousMotorSystem":
        out += ["i_e", "u_e"]
    if sysn == "DoublyFedInductionMotorSystem":
        out += "i_ra i_rb i_rc i_rd i_rq u_ra u_rb u_rc u_rd u_rq".split()
    return out


def distinct(name, base=100.0):
    d = {n: base + 7.0 * k for k, n in enumerate(io_names(name))}
    d["omega"] = base * 3 + 1
    d["torque"] = base * 5 + 1
    if MOTORS[name]["system"] != "DcMotorSystem":
        d["epsilon"] = PI
    return d
