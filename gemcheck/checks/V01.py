"""The registry: ids, the classes they construct, and the id builder for motor, control and action types."""
import re

from ..check import norm
from ..corpus import *
from ..rig import S, m
from ..values import *

MOTOR_OF = {
    "PermExDc": "DcPermanentlyExcitedMotor", "ExtExDc": "DcExternallyExcitedMotor", "SeriesDc": "DcSeriesMotor", "ShuntDc": "DcShuntMotor",
    "PMSM": "PermanentMagnetSynchronousMotor", "SynRM": "SynchronousReluctanceMotor", "EESM": "ExternallyExcitedSynchronousMotor",
    "SCIM": "SquirrelCageInductionMotor", "DFIM": "DoublyFedInductionMotor",
}
TYPE_OF = {
    "PermanentlyExcitedDcMotor": "PermExDc", "ExternallyExcitedDcMotor": "ExtExDc", "SeriesDc": "SeriesDc", "ShuntDc": "ShuntDc",
    "PermanentMagnetSynchronousMotor": "PMSM", "SynchronousReluctanceMotor": "SynRM", "ExternallyExcitedSynchronousMotor": "EESM",
    "SquirrelCageInductionMotor": "SCIM", "DoublyFedInductionMotor": "DFIM",
}
CONTROL = {"SC": "Speed", "TC": "Torque", "CC": "Current"}
CONTROL_TYPE = {"SpeedControl": "SC", "TorqueControl": "TC", "CurrentControl": "CC"}


def registrations(it):
    """(id, entry point, keywords) of every call of gymnasium's register while the package is imported."""
    out = []
    for e in it.events:
        if e.kind == "extcall" and str(e.name).endswith("registration.register"):
            k = dict(e.kwargs)
            a = list(e.args)
            rid = k.pop("id", a[0] if a else None)
            ep = k.pop("entry_point", a[1] if len(a) > 1 else None)
            out.append((rid, ep, k))
    return out


def task_of(it, e):
    names = [str(x) for x in it.iterate(it.getattr(e, "reference_names"))]
    if names == ["omega"]:
        return "Speed"
    if names == ["torque"]:
        return "Torque"
    if names and all(n == "i" or n.startswith("i_") for n in names):
        return "Current"
    return "unknown task with references %s" % names


def action_of(it, e):
    sp = it.res(it.getattr(e, "action_space")).extname.rsplit(".", 1)[-1]
    return {"Box": "Cont", "Discrete": "Finite", "MultiDiscrete": "Finite"}.get(sp, sp)


def motor_of(it, e):
    return it.res(it.getattr(it.getattr(e, "physical_system"), "electrical_motor")).cls


def resolve(ck, it, rid, ep):
    if isinstance(ep, Cls):
        return ep
    mod, _, attr = str(ep).partition(":")
    o = it.load(mod)
    for part in attr.split("."):
        o = it.getattr(o, part)
    return it.res(o)


def run(ck):
    ck.rule("id-form", "every id has the form <Cont|Finite>-<SC|TC|CC>-<motor>-v<n> with known parts and is registered once")
    ck.rule("entry", "every id resolves to an environment class, whose environment has the motor, task and action type of the id")
    ck.rule("class-name", "the class an id names carries the same action type, task and motor in its name")
    ck.rule("complete", "every exported environment class is registered exactly once; every combination of action type, task and motor has an id")
    ck.rule("env-id", "Motor(type, control, action).env_id() is the registered id of that combination")
    ck.rule("motor-states", "the states listed for a motor type exist in all its environments")
    w = World(ck)
    it = w.it
    base = ck.cls(it, "ElectricMotorEnvironment")
    regs = registrations(it)
    ck.require("id-form", "registrations", len(regs) >= 54, "only %d registrations" % len(regs))
    seen, built = {}, {}
    for rid, ep, kw in regs:
        ck.require("id-form", "%s unique" % rid, rid not in seen, "registered twice")
        mt = re.fullmatch(r"(Cont|Finite)-(SC|TC|CC)-(\w+)-v\d+", str(rid))
        if not ck.require("id-form", str(rid), bool(mt) and mt.group(3) in MOTOR_OF, "unknown parts"):
            continue
        act, ctl, mot = mt.groups()
        try:
            c = resolve(ck, it, rid, ep)
        except AbsRaise as ex:
            ck.violation("entry", str(rid), "entry point %s does not resolve: %r" % (ep, ex.exc))
            continue
        seen[rid] = c
        if not ck.require("entry", "%s class" % rid, isinstance(c, Cls) and c.issub(base), "%s is no environment class" % (ep,)):
            continue
        want = "%s%sControl%s" % (act, CONTROL[ctl], MOTOR_OF[mot])
        ck.require("class-name", str(rid), norm_name(c.name) == norm_name(want), "constructs %s" % c.name)
        with ck.guard("entry", str(rid)):
            extra = {k: v for k, v in it.res(kw.get("kwargs") or {}).items()} if kw.get("kwargs") else {}
            e = it.call(c, [], extra)
            built[rid] = e
            ck.require("entry", "%s motor" % rid, motor_of(it, e).issub(ck.cls(it, MOTOR_OF[mot])), "simulates a %s" % motor_of(it, e).name)
            ck.require("entry", "%s task" % rid, task_of(it, e) == CONTROL[ctl], "references of a %s task" % task_of(it, e))
            ck.require("entry", "%s actions" % rid, action_of(it, e) == act, "%s actions" % action_of(it, e))
    for n, c in w.envs.items():
        k = [r for r, x in seen.items() if x is c]
        ck.require("complete", n, len(k) == 1, "registered as %s" % k)
    exported = it.load("gym_electric_motor.envs").ns
    for n, c in sorted(exported.items()):
        if isinstance(c, Cls) and c.issub(base) and c is not base:
            ck.require("complete", "exported %s" % n, any(x is c for x in seen.values()) and c.name == n, "exported name %s is class %s" % (n, c.name))
    for act in ("Cont", "Finite"):
        for ctl in CONTROL:
            for mot in MOTOR_OF:
                ck.require("complete", "%s-%s-%s" % (act, ctl, mot), any(str(r).startswith("%s-%s-%s-v" % (act, ctl, mot)) for r in seen), "no id")
    # the id builder
    mod = it.load("gym_electric_motor.envs.motors")
    try:
        M, MT, CT, AT = [mod.ns[x] for x in ("Motor", "MotorType", "ControlType", "ActionType")]
    except KeyError:
        raise __import__("gemcheck.check", fromlist=["Anchor"]).Anchor("envs.motors.Motor and its type enumerations")
    byname = lambda E, n: it.getattr(E, n)
    for tn, mot in TYPE_OF.items():
        for cn, ctl in CONTROL_TYPE.items():
            for an, act in (("Continuous", "Cont"), ("Finite", "Finite")):
                cons = "%s %s %s" % (tn, cn, an)
                with ck.guard("env-id", cons):
                    mo = it.call(M, [byname(MT, tn), byname(CT, cn), byname(AT, an)], {})
                    rid = it.res(m(it, mo, "env_id"))
                    ck.require("env-id", cons, isinstance(rid, str) and rid in seen and rid.startswith("%s-%s-%s-v" % (act, ctl, mot)), "id %r" % (rid,))
                    st = [str(x) for x in it.iterate(m(it, mo, "states"))]
                    if rid in built:
                        names = [str(x) for x in it.iterate(it.getattr(it.getattr(built[rid], "physical_system"), "state_names"))]
                        miss = [x for x in st if x not in names]
                        ck.require("motor-states", cons, st and not miss and len(set(st)) == len(st), "not in the environment: %s" % miss)
    # every member of the enumerations is covered above
    for E, known in ((MT, TYPE_OF), (CT, CONTROL_TYPE), (AT, {"Continuous": 1, "Finite": 1})):
        ms = [str(it.res(it.getattr(x, "name"))) for x in it.iterate(E)]
        ck.require("env-id", "members %s" % ", ".join(sorted(ms)), set(ms) == set(known), "unknown or missing types: %s" % (set(ms) ^ set(known)))
    ck.min_decided = 400


def norm_name(n):
    n = n[:-3] if n.endswith("Env") else n
    return n.replace("Motor", "").replace("DcPermanently", "PermanentlyDc").lower()
