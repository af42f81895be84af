"""Default environments: motor, converter, references, rewards and supervision belong together."""
import re

from .. import terms as tm
from ..check import norm
from ..corpus import *
from ..interp import arr
from ..rig import S, m
from ..values import *
from .V02 import chain

PHASES = ["u_a", "u_b", "u_c"]
STATOR = ["u_sa", "u_sb", "u_sc"]
ROTOR = ["u_ra", "u_rb", "u_rc"]
DRIVE = {  # currents a current controller commands, supervised currents (alone above the limit), voltage inputs -> phase groups
    "permex": (["i"], ["i"], [["u"]]),
    "series": (["i"], ["i"], [["u"]]),
    "shunt": (["i_a"], ["i_a", "i_e"], [["u"]]),
    "extex": (["i_a", "i_e"], ["i_a", "i_e"], [["u_a"], ["u_e"]]),
    "pmsm": (["i_sd", "i_sq"], ["i_sd", "i_sq"], [PHASES]),
    "synrm": (["i_sd", "i_sq"], ["i_sd", "i_sq"], [PHASES]),
    "eesm": (["i_sd", "i_sq", "i_e"], ["i_sd", "i_sq", "i_e"], [PHASES, ["u_e"]]),
    "scim": (["i_sd", "i_sq"], ["i_sd", "i_sq"], [STATOR]),
    "dfim": (["i_sd", "i_sq"], ["i_sd", "i_sq"], [STATOR, ROTOR]),
}


def run(ck):
    ck.rule("motor", "the environment simulates the motor of its name")
    ck.rule("actions", "continuous environments have box actions, finite ones discrete actions; converter and action space are of one kind")
    ck.rule("outputs", "the converter has one output per voltage input of the motor, and each voltage depends on the actions of its own converter leg group only")
    ck.rule("references", "exactly the states of the task are referenced, and exist in the system")
    ck.rule("reward", "the reward depends on exactly the referenced states and their references")
    ck.rule("supervised", "the motor currents of the drive, and nothing else, terminate the episode when they exceed their limit")
    ck.rule("bounds", "references stay within the state space of the states they belong to")
    ck.rule("finite-limits", "limits and nominal values of all states used by the task are finite and positive")
    w = World(ck)
    it = w.it
    for name, cls_ in w.envs.items():
        mt = re.fullmatch(r"(Cont|Finite)(Speed|Torque|Current)Control(\w+)Env", name)
        short = next((k for k, c in SHORT.items() if mt and mt.group(3) == c), None)
        if not ck.require("motor", name, bool(mt) and short is not None, "a name with unknown parts"):
            continue
        act, task = mt.group(1), mt.group(2)
        currents, supervised, groups = DRIVE[short]
        want = {"Speed": ["omega"], "Torque": ["torque"], "Current": currents}[task]
        with ck.guard("motor", name):
            e = it.call(cls_, [], dict(visualization=()))
            ps = chain(it, e)[-1]
            mo = it.res(it.getattr(ps, "electrical_motor"))
            ck.require("motor", name, mo.cls.issub(ck.cls(it, SHORT[short])), "simulates a %s" % mo.cls.name)
            names = [str(x) for x in it.iterate(it.getattr(it.getattr(e, "physical_system"), "state_names"))]
            cv = it.res(it.getattr(ps, "converter"))
            kind = it.res(it.getattr(e, "action_space")).extname.rsplit(".", 1)[-1]
            ck.require("actions", name, (kind == "Box") == (act == "Cont") and kind in ("Box", "Discrete", "MultiDiscrete"), "%s actions" % kind)
            base = ck.cls(it, "ContDynamicallyAveragedConverter" if act == "Cont" else "FiniteConverter")
            ck.require("actions", name + " converter", cv.cls.issub(base), "converter is a %s" % cv.cls.name)
            flat_u = [u for g in groups for u in g]
            nu = it.res(it.getattr(it.getattr(cv, "voltages"), "low")).reshape(-1).shape[0]
            ck.require("outputs", name, nu == len(flat_u), "%d outputs for %d voltage inputs" % (nu, len(flat_u)))
            # references
            refs = [str(x) for x in it.iterate(it.getattr(e, "reference_names"))]
            ck.require("references", name, sorted(refs) == sorted(want), "references %s" % refs)
            ck.require("references", name + " exist", all(r in names for r in refs), "states are %s" % names)
            mask = [bool(x) for x in norm(it.getattr(it.getattr(e, "reference_generator"), "referenced_states"), it)]
            ck.require("references", name + " mask", sorted(n for n, b in zip(names, mask) if b) == sorted(want) and len(mask) == len(names), "referenced states %s" % [n for n, b in zip(names, mask) if b])
            # reward
            state = [S("state " + q, ("range", -1.0, 1.0)) for q in names]
            refv = [S("reference " + q, ("range", -1.0, 1.0)) for q in names]
            rw = m(it, it.getattr(e, "reward_function"), "reward", arr(state), arr(refv), 0, arr([0.0]), 0.0)
            syms = tm.symbols(norm(rw, it)) if isinstance(norm(rw, it), tm.T) else set()
            used = [q for q, a, b in zip(names, state, refv) if a in syms or b in syms]
            both = [q for q, a, b in zip(names, state, refv) if a in syms and b in syms]
            ck.require("reward", name, sorted(used) == sorted(want) and sorted(both) == sorted(want), "depends on %s (state and reference: %s)" % (used, both))
            # supervision
            mon = it.getattr(e, "constraint_monitor")
            ext = [S("extreme " + q) for q in names]
            d = norm(m(it, mon, "check_constraints", arr(ext)), it)
            sd = tm.symbols(d) if isinstance(d, tm.T) else set()
            watched = [q for q, x in zip(names, ext) if x in sd]
            ck.require("supervised", name, sorted(watched) == sorted(supervised), "monitors %s" % watched)
            for q in supervised:
                for v in (1.25, -1.25):
                    dq = norm(m(it, mon, "check_constraints", arr([v if n == q else 0.0 for n in names])), it)
                    ck.require("supervised", "%s %s=%s" % (name, q, v), dq == 1.0, "degree %s" % (dq,))
            dq = norm(m(it, mon, "check_constraints", arr([0.5 if n in supervised else 0.0 for n in names])), it)
            ck.require("supervised", "%s within limits" % name, dq == 0.0, "degree %s" % (dq,))
            # reference space
            sp = it.res(it.getattr(it.getattr(e, "reference_generator"), "reference_space"))
            ss = it.res(it.getattr(it.getattr(e, "physical_system"), "state_space"))
            lo, hi = [norm(sp.attrs[x], it) for x in ("low", "high")]
            slo, shi = [norm(ss.attrs[x], it) for x in ("low", "high")]
            order = [q for q, b in zip(names, mask) if b]
            ck.require("bounds", name, len(lo) == len(order) == len(hi), "%d bounds for %d references" % (len(lo), len(order)))
            for k, q in enumerate(order):
                i = names.index(q)
                ck.require("bounds", "%s %s" % (name, q), slo[i] - 1e-9 <= lo[k] < hi[k] <= shi[i] + 1e-9, "[%s, %s] outside [%s, %s]" % (lo[k], hi[k], slo[i], shi[i]))
            lim = norm(it.getattr(it.getattr(e, "physical_system"), "limits"), it)
            nom = norm(it.getattr(it.getattr(e, "physical_system"), "nominal_state"), it)
            for q in sorted(set(want + supervised)):
                i = names.index(q)
                ok = all(isinstance(x, (int, float)) and 0 < x < float("inf") for x in (lim[i], nom[i]))
                ck.require("finite-limits", "%s %s" % (name, q), ok and nom[i] <= lim[i] * (1 + 1e-9), "limit %s, nominal %s" % (lim[i], nom[i]))
            # voltages after one interval
            if act == "Cont":
                a = action(it, e, "leg", 0)
                widths, at = [], 0
                n_act = a.shape[0]
                for g in groups:
                    widths.append((at, at + len(g)))
                    at += len(g)
                ck.require("outputs", name + " actions", n_act == at, "%d actions for %d voltage inputs" % (n_act, at))
                e2 = it.call(cls_, [], dict(visualization=(), constraints=(), physical_system_wrappers=()))
                m(it, e2, "reset")
                st = norm(it.iterate(it.iterate(m(it, e2, "step", a))[0])[0], it)
                sn = [str(x) for x in it.iterate(it.getattr(e2, "state_names"))]
                vals = dict(zip(sn, st))
                for (x, y), g in zip(widths, groups):
                    own = set(a[x:y])
                    for u in g:
                        v = vals.get(u)
                        dep = {z for z in (tm.symbols(v) if isinstance(v, tm.T) else ()) if z in set(a)}
                        ck.require("outputs", "%s %s" % (name, u), dep and dep <= own, "depends on actions %s" % sorted(tm.show(z) for z in dep))
    ck.min_decided = 900
